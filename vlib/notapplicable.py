REASONS = {}
