class ScalarFormatter:
    pass
