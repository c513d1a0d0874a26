"""SymTorch: symbolic execution of PyTorch code by interpreting aten ops over SMT-backed scalars."""
