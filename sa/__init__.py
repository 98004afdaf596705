"""Static analysis engine for causalnex: everything here reads /repo's source, nothing runs it."""
