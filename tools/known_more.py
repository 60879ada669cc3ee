# further entries
