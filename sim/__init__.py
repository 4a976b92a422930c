"""Deterministic simulation of SpeysideHEP/spey with fault injection."""
