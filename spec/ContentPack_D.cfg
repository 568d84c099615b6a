SPECIFICATION Spec
CONSTANTS
 Sizes = {0, 3}
 MaxContents = 4
 MaxBlobs = 2
 MaxSize = 4
 NWorkers = 2
 Compressing = TRUE
 Hints = {"y", "n", "d"}
 Fault = "none"
INVARIANT TypeOK AllReadable WrittenOnce Placement Limits
