SPECIFICATION Spec
CONSTANTS
 Sizes = {2}
 MaxContents = 4
 MaxBlobs = 1
 MaxSize = 4
 NWorkers = 1
 Compressing = TRUE
 Hints = {"y", "n"}
 Fault = "norelease"
INVARIANT TypeOK AllReadable WrittenOnce Placement Limits
PROPERTY Terminates
