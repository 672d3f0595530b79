INIT JudgeInit
NEXT JudgeNext
INVARIANTS Check
