SPECIFICATION MCSpec
CONSTANT Seed <- EnvSeed
VIEW View
INVARIANTS NestOK GroupsMatchActive NoReentry RangesOK MaskBufOK RefsOK ImportOK Refines ConstantOK
CHECK_DEADLOCK FALSE
