SPECIFICATION Spec
CONSTANT MaxMembers = 3
INVARIANTS Tiles Local Divided Orders
