SPECIFICATION Spec
CONSTANTS
 Sizes = {2}
 MaxContents = 3
 MaxBlobs = 1
 MaxSize = 4
 NWorkers = 2
 Compressing = TRUE
 Hints = {"y", "n"}
 Fault = "fifo"
INVARIANT TypeOK AllReadable WrittenOnce Placement Limits
