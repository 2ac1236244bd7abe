"""Stand-in for matplotlib: keeps what is drawn, draws nothing."""
rcParams = {}
rcParamsDefault = {}
