SPECIFICATION Spec
INVARIANTS TrueLocation TokensInOrder TokenIsMatch FailsOnlyWhenStuck SplitAsDefined
CHECK_DEADLOCK FALSE
