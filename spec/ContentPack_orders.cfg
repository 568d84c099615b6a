SPECIFICATION Spec
CONSTANTS
 Sizes = {3}
 MaxContents = 5
 MaxBlobs = 3
 MaxSize = 4
 NWorkers = 2
 Compressing = TRUE
 Hints = {"y", "n"}
 Fault = "none"
INVARIANT AllReadable Seqs
