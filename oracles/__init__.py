"""Executable contracts: every property's specification evaluated on the real code for concrete inputs."""
