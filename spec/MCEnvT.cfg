SPECIFICATION Spec
CONSTANT MaxOps = 2
INVARIANTS AtEnd MetaSet PathNoDup
PROPERTIES StopsForGood OneVariable
CHECK_DEADLOCK FALSE
