SPECIFICATION Spec
INVARIANTS Total ExactlyTagged Identifies ArchiveAgrees OnePlus
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
 TagNames <- mcTagsL
 MaxCommits = 4
