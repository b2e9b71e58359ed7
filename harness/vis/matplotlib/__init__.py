"""Stand-in for matplotlib: draws nothing, but records what would be drawn. (The real one isn't installed.)"""
__version__ = "3.1.0"
