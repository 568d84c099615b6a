SPECIFICATION Spec
CONSTANTS
 Sizes = {2}
 MaxContents = 6
 MaxBlobs = 1
 MaxSize = 4
 NWorkers = 2
 Compressing = TRUE
 Hints = {"y", "n"}
 Fault = "none"
INVARIANT TypeOK AllReadable WrittenOnce Placement Limits
