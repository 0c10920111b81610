SPECIFICATION Spec
CONSTANTS NumFeat = 3
 MaxNodes = 4
INVARIANTS RankingIsPrefix FirstIsFirst OnceEach SeenAll
PROPERTIES Stable
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
