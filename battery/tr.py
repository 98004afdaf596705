"""Edits of structure/transformers.py."""
EDITS = []
TR = "structure/transformers.py"


def ref(name, *subs):
    EDITS.append(("r_tr_" + name, "ref", TR, list(subs)))


def bug(name, *subs):
    EDITS.append(("b_tr_" + name, "C31", TR, list(subs)))


CUT = '''            cutting_points = np.where(np.diff(t.index) > 1)[0]
            cutting_points = [0] + list(cutting_points + 1) + [len(t)]
            for start, end in zip(cutting_points[:-1], cutting_points[1:]):
                time_series_realisations.append(t.iloc[start:end, :].values)
'''
CONV = '''        X = np.concatenate([realisation[p:] for realisation in realisations], axis=0)
        y_lag_list = [
            np.concatenate([realisation[p - i - 1 : -i - 1] for i in range(p)], axis=1)
            for realisation in realisations
        ]
        y_lag = np.concatenate(y_lag_list, axis=0)
'''
LAGS = '''        df_x = pd.DataFrame(
            X, columns=["{col}_lag0".format(col=col) for col in self.columns]
        )
        df_xlags = pd.DataFrame(
            Xlags,
            columns=[
                "{col}_lag{l_}".format(col=col, l_=l_)
                for l_ in range(1, self.p + 1)
                for col in self.columns
            ],
        )
        return pd.concat([df_x, df_xlags], axis=1)
'''
NUMS = '''            non_numeric_cols = t.select_dtypes(exclude="number").columns

            if not non_numeric_cols.empty:
                raise ValueError(
                    "All columns must have numeric data. Consider mapping the "
                    "following columns to int: {non_numeric_cols}".format(
                        non_numeric_cols=list(non_numeric_cols)
                    )
                )
'''
SAME = '''            if (not np.all(df.columns == t.columns)) or (
                not np.all(df.dtypes == t.dtypes)
            ):
                raise ValueError("All inputs must have the same columns and same types")
'''
ORDER = '''            if not np.all(t.index == t.index.sort_values()):
                raise ValueError(
                    "Index for dataframe must be provided in increasing order"
                )
'''
INTS = '''            if t.index.dtype != int:
                raise TypeError("Index must be integers")
'''
MISS = '''            if self.columns is not None:
                missing_cols = [c for c in self.columns if c not in t.columns]
                if missing_cols:
                    raise ValueError(
                        "We should provide all necessary columns in the time series."
                        " Columns not provided: {col}".format(col=missing_cols)
                    )
'''
FITTED = '''        if self.columns is None:
            raise NotFittedError(
                "This DynamicDataTransformer is not fitted yet. "
                "Call `fit` before using this method"
            )

'''
TLIST = '''        time_series = time_series if isinstance(time_series, list) else [time_series]

        self._check_input_from_pandas(time_series)
'''
FIT = '''        self._check_input_from_pandas(time_series)
        self.columns = list(time_series[0].columns)
        self.return_df = return_df
        return self
'''

ref("hstack", (CONV, '''        X = np.vstack([piece[p:] for piece in realisations])
        y_lag = np.vstack(
            [
                np.hstack([piece[p - k : -k] for k in range(1, p + 1)])
                for piece in realisations
            ]
        )
'''))
ref("conv_loop", (CONV, '''        current, lagged = [], []
        for piece in realisations:
            current.append(piece[p:])
            n = len(piece)
            blocks = []
            for i in range(p):
                blocks.append(piece[p - 1 - i : n - 1 - i])
            lagged.append(np.concatenate(blocks, axis=1))
        X = np.concatenate(current, axis=0)
        y_lag = np.concatenate(lagged, axis=0)
'''))
ref("cut_flat", (CUT, '''            jumps = np.flatnonzero(np.diff(t.index) > 1) + 1
            bounds = [0, *jumps, len(t)]
            for start, end in zip(bounds[:-1], bounds[1:]):
                time_series_realisations.append(t.iloc[start:end].to_numpy())
'''))
ref("cut_comp", (CUT, '''            jumps = np.nonzero(np.diff(t.index) > 1)[0]
            bounds = [0] + [j + 1 for j in jumps] + [t.shape[0]]
            values = t.values
            time_series_realisations.extend(
                values[lo:hi] for lo, hi in zip(bounds[:-1], bounds[1:])
            )
'''))
ref("cut_ge2", ("np.diff(t.index) > 1", "1 < np.diff(t.index)"))
ref("names_f", (LAGS, '''        names = [f"{name}_lag{lag}" for lag in range(1, self.p + 1) for name in self.columns]
        now = pd.DataFrame(X, columns=[f"{name}_lag0" for name in self.columns])
        before = pd.DataFrame(Xlags, columns=names)
        return pd.concat([now, before], axis="columns")
'''))
ref("names_pct", (LAGS, '''        names = []
        for k in range(self.p):
            for name in self.columns:
                names.append("{}_lag{}".format(name, k + 1))
        now = pd.DataFrame(data=X, columns=["{}_lag0".format(c) for c in self.columns])
        before = pd.DataFrame(data=Xlags, columns=names)
        return pd.concat([now, before], axis=1)
'''))
ref("names_one", (LAGS, '''        names = [f"{c}_lag0" for c in self.columns] + [
            f"{c}_lag{k}" for k in range(1, self.p + 1) for c in self.columns
        ]
        return pd.DataFrame(np.concatenate([X, Xlags], axis=1), columns=names)
'''))
ref("mono", (ORDER, ORDER.replace("not np.all(t.index == t.index.sort_values())", "not t.index.is_monotonic_increasing")))
ref("subdtype", (INTS, INTS.replace("t.index.dtype != int", "not np.issubdtype(t.index.dtype, np.integer)")))
ref("helper", (SAME, '''            self._check_same(time_series[0], t)
'''), ("    @staticmethod\n    def _cut_dataframes", '''    @staticmethod
    def _check_same(first, other):
        same = np.all(first.columns == other.columns) and np.all(
            first.dtypes == other.dtypes
        )
        if not same:
            raise ValueError("All inputs must have the same columns and same types")

    @staticmethod
    def _cut_dataframes'''))
ref("all_method", (SAME, SAME.replace("np.all(df.columns == t.columns)", "(df.columns == t.columns).all()").replace("np.all(df.dtypes == t.dtypes)", "(t.dtypes == df.dtypes).all()")))
ref("any_neq", (SAME, SAME.replace("not np.all(df.columns == t.columns)", "(df.columns != t.columns).any()").replace("not np.all(df.dtypes == t.dtypes)", "np.any(df.dtypes != t.dtypes)")))
ref("nondeep", ("df = deepcopy(time_series[0])", "df = time_series[0]"))
ref("nums_len", (NUMS, '''            bad = list(t.select_dtypes(exclude="number").columns)
            if len(bad) > 0:
                raise ValueError("All columns must have numeric data: {}".format(bad))
'''))
ref("miss_any", (MISS, '''            if self.columns is not None and any(
                c not in t.columns for c in self.columns
            ):
                raise ValueError("Columns not provided")
'''))
ref("miss_set", (MISS, '''            if self.columns is not None:
                if set(self.columns) - set(t.columns):
                    raise ValueError("Columns not provided")
'''))
ref("listwrap", (TLIST, '''        if not isinstance(time_series, list):
            time_series = [time_series]
        self._check_input_from_pandas(time_series)
'''))
ref("tocols", (FIT, FIT.replace("list(time_series[0].columns)", "time_series[0].columns.tolist()")))
ref("ifelse", ('''        if self.return_df:
            res = self._concat_lags(X, Xlags)
            return res
        return X, Xlags
''', '''        if not self.return_df:
            return X, Xlags
        return self._concat_lags(X, Xlags)
'''))
ref("order", (INTS + "\n", ""), (ORDER, INTS + "\n" + ORDER))

bug("cut_ge1", ("np.diff(t.index) > 1", "np.diff(t.index) >= 1"))
bug("cut_ne1", ("np.diff(t.index) > 1", "np.diff(t.index) > 2"))
bug("cut_off", ("list(cutting_points + 1)", "list(cutting_points)"))
bug("cut_last", ("+ [len(t)]", "+ [len(t) - 1]"))
bug("cut_first", ("[0] + list", "[1] + list"))
bug("cut_skip", ("zip(cutting_points[:-1], cutting_points[1:])", "zip(cutting_points[:-2], cutting_points[1:])"))
bug("cut_none", (CUT, "            time_series_realisations.append(t.values)\n"))
bug("x_from", ("realisation[p:]", "realisation[p - 1 :]"))
bug("x_upto", ("realisation[p:]", "realisation[:-p]"))
bug("lag_order", ("for i in range(p)]", "for i in reversed(range(p))]"))
bug("lag_shift", ("realisation[p - i - 1 : -i - 1]", "realisation[p - i : -i]"))
bug("lag_lead", ("realisation[p - i - 1 : -i - 1]", "realisation[i : i - p]"))
bug("lag_axis", ("for i in range(p)], axis=1)", "for i in range(p)], axis=0)"))
bug("lag_off", ("range(p)], axis=1", "range(p - 1)], axis=1"))
bug("name_order", ('''                for l_ in range(1, self.p + 1)
                for col in self.columns
''', '''                for col in self.columns
                for l_ in range(1, self.p + 1)
'''))
bug("name_from0", ("for l_ in range(1, self.p + 1)", "for l_ in range(self.p)"))
bug("name_rev", ("for l_ in range(1, self.p + 1)", "for l_ in range(self.p, 0, -1)"))
bug("name_lag0", ("{col}_lag0", "{col}_lag1"))
bug("concat_axis", ("[df_x, df_xlags], axis=1", "[df_x, df_xlags], axis=0"))
bug("concat_swap", ("[df_x, df_xlags], axis=1", "[df_xlags, df_x], axis=1"))
bug("no_numeric", (NUMS, ""))
bug("num_int", ('exclude="number"', 'exclude="object"'))
bug("no_same", (SAME, ""))
bug("only_cols", (SAME, SAME.replace(''') or (
                not np.all(df.dtypes == t.dtypes)
            )''', ")").replace("if (not", "if (not")))
bug("same_and", (SAME, SAME.replace(") or (", ") and (")))
bug("no_order", (ORDER, ""))
bug("no_int", (INTS, ""))
bug("int_value", (INTS, INTS.replace("TypeError", "ValueError")))
bug("no_miss", (MISS, ""))
bug("miss_rev", (MISS, MISS.replace("[c for c in self.columns if c not in t.columns]", "[c for c in t.columns if c not in self.columns]")))
bug("no_fitted", (FITTED, ""))
bug("late_fitted", (FITTED, ""), (TLIST, TLIST + "\n" + FITTED))
bug("no_empty", ('''        if not time_series:
            raise ValueError(
                "Provided empty list of time_series. At least one DataFrame must be provided"
            )

''', ""))
bug("first_only", ("for t in time_series:\n            if not isinstance", "for t in time_series[:1]:\n            if not isinstance"))
bug("early_store", (FIT, '''        self.columns = list(time_series[0].columns)
        self._check_input_from_pandas(time_series)
        self.return_df = return_df
        return self
'''))
bug("no_select", ("        time_series = [t[self.columns] for t in time_series]\n", ""))
bug("sel_inplace", ("        time_series = [t[self.columns] for t in time_series]\n", '''        for k, t in enumerate(time_series):
            time_series[k] = t[self.columns]
'''))
bug("sorted_cols", (FIT, FIT.replace("list(time_series[0].columns)", "sorted(time_series[0].columns)")))
bug("last_cols", (FIT, FIT.replace("list(time_series[0].columns)", "list(time_series[-1].columns[:-1])")))
bug("df_fixed", (FIT, FIT.replace("self.return_df = return_df", "self.return_df = True")))
bug("df_swap", ("        if self.return_df:\n            res", "        if not self.return_df:\n            res"))
bug("pair_swap", ("        return X, Xlags\n", "        return Xlags, X\n"))
bug("sort_input", ("        ts_realisations = self._cut", "        for t in time_series:\n            t.sort_index(inplace=True)\n        ts_realisations = self._cut"))
