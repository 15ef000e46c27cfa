INIT CInit
NEXT Judge
CONSTANT Accept <- HBAccept
