SPECIFICATION Spec
CONSTANT MaxOps = 1
INVARIANTS AtEnd MetaSet PathNoDup
PROPERTIES StopsForGood OneVariable
CHECK_DEADLOCK FALSE
