exec(trick.dst_snapshot())
