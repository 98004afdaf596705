"""Edits of the discretiser."""
F = "discretiser/discretiser.py"
EDITS = []


def ref(n, *subs):
    EDITS.append(("r_dc_" + n, "ref", F, list(subs)))


def bug(n, *subs):
    EDITS.append(("b_dc_" + n, "C33", F, list(subs)))


UNI = '''            bucket_width = (np.max(x) - np.min(x)) / self.num_buckets
            self.numeric_split_points = [
                np.min(x) + bucket_width * (n + 1) for n in range(self.num_buckets - 1)
            ]
'''
QU = '''            bucket_width = 1.0 / self.num_buckets
            quantiles = [bucket_width * (n + 1) for n in range(self.num_buckets - 1)]
            self.numeric_split_points = np.quantile(x, quantiles)
'''
PC = '''            percentiles = [p * 100 for p in self.percentile_split_points]
            self.numeric_split_points = np.percentile(x, percentiles)
'''
OUT = '''            self.numeric_split_points = np.quantile(
                x, [self.outlier_percentile, 1 - self.outlier_percentile]
            )
'''
ref("uni_range1", (UNI, '''            low, high = x.min(), x.max()
            width = (high - low) / self.num_buckets
            self.numeric_split_points = [low + width * i for i in range(1, self.num_buckets)]
'''))
ref("uni_lin", (UNI, '''            self.numeric_split_points = list(
                np.linspace(np.min(x), np.max(x), self.num_buckets + 1)[1:-1]
            )
'''))
ref("uni_loop", (UNI, '''            bucket_width = (np.max(x) - np.min(x)) / self.num_buckets
            points = []
            for n in range(self.num_buckets - 1):
                points.append(np.min(x) + bucket_width * (n + 1))
            self.numeric_split_points = points
'''))
ref("uni_arange", (UNI, '''            width = np.ptp(x) / self.num_buckets
            self.numeric_split_points = np.min(x) + width * np.arange(1, self.num_buckets)
'''))
ref("qu_lin", (QU, '''            self.numeric_split_points = np.quantile(
                x, np.linspace(0, 1, self.num_buckets + 1)[1:-1]
            )
'''))
ref("qu_div", (QU, '''            quantiles = [i / self.num_buckets for i in range(1, self.num_buckets)]
            self.numeric_split_points = np.quantile(x, quantiles)
'''))
ref("pc_quantile", (PC, '''            self.numeric_split_points = np.quantile(x, self.percentile_split_points)
'''))
ref("out_pct", (OUT, '''            low = self.outlier_percentile
            self.numeric_split_points = np.percentile(x, [100 * low, 100 * (1 - low)])
'''))
ref("nosort", ("        x.sort()\n", ""))
ref("ravel", ("        x = data.flatten()\n        x.sort()\n", "        x = np.sort(data.ravel())\n"))
ref("fixedfirst", ('''        x = data.flatten()
''', '''        if self.method == "fixed":
            raise RuntimeError("cannot call fit using method=fixed")

        x = data.flatten()
'''))
ref("dig_default", ("np.digitize(data, self.numeric_split_points, right=False)", "np.digitize(data, bins=self.numeric_split_points)"))
ref("init_elif", ("        if self.method == \"outlier\" and outlier_percentile is None:\n", "        elif self.method == \"outlier\" and outlier_percentile is None:\n"))
ref("init_any", ('''percentile_split_points is not None and not all(
            0 <= p <= 1 for p in percentile_split_points
        )''', '''percentile_split_points is not None and any(
            p < 0 or p > 1 for p in percentile_split_points
        )'''))
ref("init_helper", ('''        if self.method == "fixed" and numeric_split_points is None:
            raise ValueError(
                "{0} method expects {1}".format(self.method, "numeric_split_points")
            )
''', '''        self._expect("fixed", numeric_split_points, "numeric_split_points")
'''), ('''    def fit(self,''', '''    def _expect(self, method, value, name):
        if self.method == method and value is None:
            raise ValueError("{0} method expects {1}".format(self.method, name))

    def fit(self,'''))
bug("uni_n", (UNI, UNI.replace("(n + 1)", "n")))
bug("uni_k", (UNI, UNI.replace("/ self.num_buckets\n", "/ (self.num_buckets - 1)\n")))
bug("uni_lastedge", (UNI, UNI.replace("range(self.num_buckets - 1)", "range(self.num_buckets)")))
bug("uni_zero", (UNI, UNI.replace("np.min(x) + ", "")))
bug("uni_std", (UNI, UNI.replace("np.max(x) - np.min(x)", "np.max(x)")))
bug("qu_unique", (QU, QU.replace("np.quantile(x, quantiles)", "np.quantile(np.unique(x), quantiles)")))
bug("qu_interp", (QU, QU.replace("np.quantile(x, quantiles)", "np.quantile(x, quantiles, interpolation='lower')")))
bug("pc_scale", (PC, PC.replace("[p * 100 for", "[p for")))
bug("pc_int", (PC, PC.replace("[p * 100 for", "[int(p * 100) for")))
bug("out_sym", (OUT, OUT.replace("1 - self.outlier_percentile", "1 - self.outlier_percentile / 2")))
bug("out_bothlow", (OUT, OUT.replace("1 - self.outlier_percentile", "self.outlier_percentile")))
bug("view", ("data.flatten()", "data.ravel()"))
bug("view2", ("data.flatten()", "data.reshape(-1)"))
bug("right", ("right=False", "right=True"))
bug("left", ("np.digitize(data, self.numeric_split_points, right=False)", "np.searchsorted(self.numeric_split_points, data)"))
bug("fixedfit", ("            raise RuntimeError(\"cannot call fit using method=fixed\")\n", "            self.numeric_split_points = sorted(x)\n"))
bug("fixedsilent", ("            raise RuntimeError(\"cannot call fit using method=fixed\")\n", "            pass\n"))
bug("refit", ("        if self.method == \"uniform\":\n            bucket", "        if self.method == \"uniform\" and not self.numeric_split_points:\n            bucket"))
bug("v_half", ("0 <= outlier_percentile < 0.5", "0 <= outlier_percentile <= 0.5"))
bug("v_neg", ("0 <= outlier_percentile < 0.5", "outlier_percentile < 0.5"))
bug("v_quantile", ("in {\"uniform\", \"quantile\"} and", "in {\"uniform\"} and"))
bug("v_mono", ("sorted(percentile_split_points) != percentile_split_points", "sorted(percentile_split_points) != sorted(percentile_split_points)"))
bug("v_reverse", ("sorted(numeric_split_points) != numeric_split_points", "sorted(numeric_split_points, reverse=True) != numeric_split_points"))
bug("v_open", ("0 <= p <= 1 for", "0 < p < 1 for"))
bug("v_any", ("is not None and not all(", "is not None and not any("))
bug("v_fixedonly", ("            numeric_split_points is not None\n            and sorted", "            self.method == \"percentiles\"\n            and sorted"))
bug("lost", ("        self.outlier_percentile = outlier_percentile\n", "        self.outlier_percentile = outlier_percentile or 0.05\n"))
bug("noself", ("        return self\n", ""))
bug("clip", ("np.digitize(data, self.numeric_split_points, right=False)", "np.digitize(np.round(data), self.numeric_split_points, right=False)"))
