INIT CInit
NEXT Judge
CONSTANT Accept <- XAccept
