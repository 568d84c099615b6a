SPECIFICATION Spec
CONSTANTS
 Sizes = {0, 2, 3, 5}
 MaxContents = 3
 MaxBlobs = 3
 MaxSize = 4
 NWorkers = 1
 Compressing = TRUE
 Hints = {"y", "n"}
 Fault = "none"
INVARIANT AllReadable Seqs
