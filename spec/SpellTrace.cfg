INIT JudgeInit
NEXT JudgeNext
INVARIANT Check
