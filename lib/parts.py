"""A temporary partitioned table whose plain aggregates run as partial aggregates: every partition gets a
transition state of its own, which is serialized, deserialized and combined. Rows keep their order inside a partition."""

SETTINGS = ("SET enable_partitionwise_aggregate=on; SET cpu_tuple_cost=10; SET cpu_operator_cost=0; "
            "SET max_parallel_workers_per_gather=0; ")


class Parts:
    def __init__(self, worker, name, cols, n=4):
        self.w, self.name, self.cols, self.n, self.conn = worker, name, cols, n, None

    def ensure(self):
        if self.conn is self.w.conn:
            return
        self.conn = self.w.conn
        q = SETTINGS + "CREATE TEMP TABLE %s(part int, %s) PARTITION BY LIST(part); " % (self.name, self.cols)
        for i in range(self.n):
            q += "CREATE TEMP TABLE %s_%d PARTITION OF %s FOR VALUES IN (%d); " % (self.name, i, self.name, i)
        self.conn.exec(q)

    def load(self, rec, rows):
        """rows: [(partition, "literal, literal, ..")]"""
        self.ensure()
        self.w.Q(rec, "TRUNCATE %s; INSERT INTO %s VALUES %s" % (
            self.name, self.name, ",".join("(%d,%s)" % x for x in rows)))

    def is_partial(self, rec, q):
        return any("Partial" in r[0] for r in self.w.Q(rec, "EXPLAIN (COSTS OFF) " + q))
