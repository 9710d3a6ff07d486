SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS CutsDoNotMatter Genuine AfterSilence KeptIsOpen AsDeclared
