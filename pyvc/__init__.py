"""PyVC: contract-based deductive verifier for the Python of /repo.

The verified text is the source of /repo itself, executed by CPython on
symbolic values; see DESIGN.md."""
