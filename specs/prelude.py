"""Shared vocabulary of the specifications."""


def assume(condition):
    pass
