"""Names with a fixed meaning."""

MUTATORS = {
    "append", "add", "extend", "update", "insert", "appendleft", "extendleft",
    "pop", "popleft", "remove", "discard", "clear", "setdefault", "sort",
    "reverse", "difference_update", "intersection_update",
    "symmetric_difference_update", "popitem", "subtract", "rotate",
}
