CONSTANTS
  Threads = {t1, t2, t3}
  Texts = {1, 2, 3}
  Answers = {"a", "b", "e"}
SPECIFICATION Spec
INVARIANTS TypeOK OneAnswer Remembered
PROPERTY Stable
CHECK_DEADLOCK FALSE
