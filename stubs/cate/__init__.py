"""Minimal stand-in for the part of the "cate" package (not installed here) that DeDop uses."""
