SPECIFICATION Spec
CONSTANTS
 Sizes = {0, 2, 5}
 MaxContents = 3
 MaxBlobs = 2
 MaxSize = 4
 NWorkers = 1
 Compressing = FALSE
 Hints = {"y", "n", "d"}
 Fault = "none"
INVARIANT TypeOK AllReadable WrittenOnce Placement Limits
PROPERTY Terminates
