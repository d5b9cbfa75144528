"""Deterministic simulation of zope.tal with fault injection."""
