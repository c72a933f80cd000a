from . import c_lists, c_queues, c_trees, c_heaps, c_tries, c_suffix, c_skip, c_hist, c_print, c_nodes  # noqa
