"""Registered checks: property id -> module with units(project) -> [uid] and run_unit(project, uid) -> oracle.Outcome (plus .reach)."""
