SPECIFICATION Spec
CONSTANTS NumFeat = 3
 MaxNodes = 5
INVARIANTS RankingIsPrefix FirstIsFirst OnceEach SeenAll
PROPERTIES Stable
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
