/*