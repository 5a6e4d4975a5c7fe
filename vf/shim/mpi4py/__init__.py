"""A stand-in for mpi4py: the ranks are separate processes (or, in one process, taken in turns) that exchange messages through files.
Rank, size and a delay per rank come from the environment."""
