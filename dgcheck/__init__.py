"""dgcheck: repository-specific static analysis of dustgoggles (see ../DESIGN.md)."""
