SPECIFICATION Spec
CONSTANTS
 Sizes = {1}
 MaxContents = 6
 MaxBlobs = 3
 MaxSize = 100
 NWorkers = 1
 Compressing = TRUE
 Hints = {"y", "n"}
 Fault = "none"
INVARIANT AllReadable Seqs
