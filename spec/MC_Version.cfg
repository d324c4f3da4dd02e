SPECIFICATION Spec
INVARIANTS Total ExactlyTagged Identifies ArchiveAgrees OnePlus
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
 TagNames <- mcTags
 MaxCommits = 3
ACTION_CONSTRAINT PrintEdge
