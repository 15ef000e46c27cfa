INIT CInit
NEXT Judge
CONSTANT Accept <- JoinAccept
