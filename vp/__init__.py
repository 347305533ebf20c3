"""Machinery shared by the checks: build, spec-driven generation, replay, TLC conformance."""
