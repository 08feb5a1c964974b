SPECIFICATION Spec
CONSTANT Seed <- EnvSeed
VIEW View
INVARIANTS Independent WellFormed Bounded Told
CHECK_DEADLOCK FALSE
