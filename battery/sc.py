"""Edits of the scores, gradients and rounds of NOTEARS and DYNOTEARS."""
NT = "structure/notears.py"
DY = "structure/dynotears.py"
EDITS = []


def ref(n, f, *subs):
    EDITS.append(("r_sc_" + n, "ref", f, list(subs)))


def bug(n, f, *subs, ids="C36"):
    EDITS.append(("b_sc_" + n, ids, f, list(subs)))


LOSS = 'loss = 0.5 / n * np.square(np.linalg.norm(X.dot(np.eye(d, d) - W), "fro"))\n'
H = "        W = w.reshape([d, d])\n        return np.trace(slin.expm(W * W)) - d\n"
SUM = "return loss + 0.5 * rho * h * h + alpha * h\n"
LG = "loss_grad = -1.0 / n * X.T.dot(X).dot(np.eye(d, d) - W)\n"
OG = "obj_grad = loss_grad + (rho * (np.trace(E) - d) + alpha) * E.T * W * 2\n        return obj_grad.flatten()\n"
LLOSS = 'loss = 0.5 / n * np.square(np.linalg.norm(X.dot(np.eye(d, d) - wmat), "fro"))\n'
LSUM = "return loss + 0.5 * rho * h_val * h_val + alpha * h_val + beta * w_vec.sum()\n"
LOG = '''        lbd_grad = beta * np.ones(d * d)
        grad_vec[: d ** 2] = obj_grad.flatten() + lbd_grad
        grad_vec[d ** 2 :] = -obj_grad.flatten() + lbd_grad

        return grad_vec
'''
INNER = '''            sol = sopt.minimize(_func, w_est, method="L-BFGS-B", jac=_grad, bounds=bnds)
            w_new = sol.x
            h_new = _h(w_new)
            if h_new > 0.25 * h:
                rho *= 10

        w_est, h = w_new, h_new
        alpha += rho * h
        if h <= h_tol:
            break
'''
ref("sumsq", NT, (LOSS, "R = X - X.dot(W)\n        loss = 0.5 / n * (R ** 2).sum()\n"))
ref("np_sum", NT, (LOSS, "loss = np.sum(np.square(X @ (np.eye(d) - W))) / (2 * n)\n"))
ref("trace_form", NT, (LOSS, "R = X.dot(np.eye(d) - W)\n        loss = 0.5 * np.trace(R.T.dot(R)) / n\n"))
ref("norm_pow", NT, (LOSS, "loss = 0.5 * np.linalg.norm(X - X @ W) ** 2 / n\n"))
ref("h_square", NT, (SUM, "return loss + alpha * h + rho / 2 * h ** 2\n"))
ref("h_fact", NT, (SUM, "return loss + h * (alpha + 0.5 * rho * h)\n"))
ref("h_power", NT, (H, "        W = w.reshape(d, d)\n        return slin.expm(np.square(W)).trace() - d\n"))
ref("h_mult", NT, (H, "        W = np.reshape(w, (d, d))\n        E = slin.expm(np.multiply(W, W))\n        return np.trace(E) - d\n"))
ref("grad_resid", NT, (LG, "loss_grad = -X.T.dot(X - X.dot(W)) / n\n"))
ref("grad_at", NT, (LG, "loss_grad = (X.T @ X @ W - X.T @ X) / n\n"))
ref("grad_two", NT, (OG, "h_grad = 2 * W * E.T\n        obj_grad = loss_grad + rho * _h(w) * h_grad + alpha * h_grad\n        return obj_grad.ravel()\n"))
ref("grad_reshape", NT, (OG, "obj_grad = loss_grad + (rho * (np.trace(E) - d) + alpha) * (E.T * W * 2)\n        return obj_grad.reshape(-1)\n"))
ref("jac_true", NT, (SUM, "return loss + 0.5 * rho * h * h + alpha * h, _grad(w)\n"), ("method=\"L-BFGS-B\", jac=_grad, bounds=bnds)\n            w_new = sol.x\n            h_new = _h(w_new)",
                                                                                          "method=\"L-BFGS-B\", jac=True, bounds=bnds)\n            w_new = sol.x\n            h_new = _h(w_new)"))
ref("lasso_concat", NT, (LOG, "        g = obj_grad.flatten()\n        return np.concatenate([g + beta, beta - g])\n"))
ref("lasso_hstack", NT, (LOG, "        g = obj_grad.ravel()\n        return np.hstack((g, -g)) + beta * np.ones(2 * d ** 2)\n"))
ref("lasso_append", NT, (LOG, "        g = obj_grad.ravel()\n        return np.append(g, -g) + beta\n"))
ref("lasso_vstack", NT, (LOG, "        return np.vstack([obj_grad, -obj_grad]).flatten() + beta\n"))
ref("lasso_pen", NT, (LSUM, "l1 = beta * (w_pos.sum() + w_neg.sum())\n        return loss + l1 + alpha * h_val + 0.5 * rho * h_val ** 2\n"))
ref("lasso_mats", NT, (LSUM, "l1 = beta * np.sum(wmat_pos + wmat_neg)\n        return loss + l1 + alpha * h_val + 0.5 * rho * h_val ** 2\n"))
ref("lasso_order", NT, (LOG, '''        lbd_grad = np.full(d * d, beta)
        grad_vec[d * d :] = lbd_grad - obj_grad.flatten()
        grad_vec[: d * d] = lbd_grad + obj_grad.flatten()
        return grad_vec
'''))
ref("rho_mult", NT, (INNER, INNER.replace("rho *= 10", "rho = 10 * rho")))
ref("rho_quarter", NT, (INNER, INNER.replace("h_new > 0.25 * h", "0.25 * h < h_new")))
ref("direct", NT, (INNER, INNER.replace("w_new = sol.x", "w_new = sol.x").replace("w_est, h = w_new, h_new\n", "w_est = w_new\n        h = h_new\n")))
ref("alpha_new", NT, (INNER, INNER.replace("w_est, h = w_new, h_new\n        alpha += rho * h\n", "alpha += rho * h_new\n        w_est, h = w_new, h_new\n")))
ref("exit_flip", NT, (INNER, INNER.replace("if h <= h_tol", "if not h > h_tol")))
ref("nosol", NT, (INNER, INNER.replace("            sol = sopt", "            w_new = sopt").replace("bounds=bnds)\n            w_new = sol.x", "bounds=bnds).x")))
ref("renamed", NT, ("    rho, alpha, h, h_new = 1.0, 0.0, np.inf, np.inf\n", "    rho, alpha, h = 1.0, 0.0, np.inf\n    h_new = h\n"))
ref("dy_resid", DY, ('''        loss = (
            0.5
            / n
            * np.square(
                np.linalg.norm(
                    X.dot(np.eye(d_vars, d_vars) - _w_mat) - Xlags.dot(_a_mat), "fro"
                )
            )
        )
''', "        R = X - X @ _w_mat - Xlags @ _a_mat\n        loss = np.sum(R * R) / (2 * n)\n"))
ref("dy_pen", DY, ('''        l1_penalty = lambda_w * (wa_vec[: 2 * d_vars ** 2].sum()) + lambda_a * (
            wa_vec[2 * d_vars ** 2 :].sum()
        )
''', "        split = 2 * d_vars * d_vars\n        l1_penalty = lambda_w * np.sum(wa_vec[:split]) + lambda_a * np.sum(wa_vec[split:])\n"))
ref("dy_grad", DY, ('''        loss_grad_w = (
            -1.0
            / n
            * (X.T.dot(X.dot(np.eye(d_vars, d_vars) - _w_mat) - Xlags.dot(_a_mat)))
        )
''', "        resid = X.dot(np.eye(d_vars) - _w_mat) - Xlags.dot(_a_mat)\n        loss_grad_w = -X.T.dot(resid) / n\n"))
ref("dy_concat", DY, ("        return np.append(grad_vec_w, grad_vec_a, axis=0)\n", "        return np.concatenate([grad_vec_w, grad_vec_a])\n"))
ref("dy_gradw", DY, ('''        grad_vec_w = np.append(
            obj_grad_w, -obj_grad_w, axis=0
        ).flatten() + lambda_w * np.ones(2 * d_vars ** 2)
''', "        flat_w = obj_grad_w.flatten()\n        grad_vec_w = np.concatenate((flat_w + lambda_w, lambda_w - flat_w))\n"))

bug("half", NT, (LOSS, LOSS.replace("0.5 / n", "1.0 / n")))
bug("half_both", NT, (LOSS, LOSS.replace("0.5 / n", "1.0 / n")), (LG, LG.replace("-1.0 / n", "-2.0 / n")))
bug("transposed", NT, (LOSS, LOSS.replace("- W)", "- W.T)")))
bug("no_n", NT, (LOSS, LOSS.replace("0.5 / n", "0.5 / d")))
bug("no_square", NT, (LOSS, LOSS.replace("np.square(np.linalg.norm(X.dot(np.eye(d, d) - W), \"fro\"))", "np.linalg.norm(X.dot(np.eye(d, d) - W), \"fro\")")))
bug("l1_norm", NT, (LOSS, LOSS.replace('"fro"', "1")), ids="any")
bug("h_plain", NT, (H, H.replace("W * W", "W")))
bug("h_abs", NT, (H, H.replace("W * W", "np.abs(W)")), ids="any")
bug("h_dot", NT, (H, H.replace("W * W", "W.dot(W)")))
bug("h_nod", NT, (H, H.replace(" - d\n", "\n")))
bug("h_half", NT, (SUM, SUM.replace("0.5 * rho", "rho")))
bug("h_noalpha", NT, (SUM, SUM.replace(" + alpha * h", "")))
bug("h_notsq", NT, (SUM, SUM.replace("h * h", "h")))
bug("h_sign", NT, (SUM, SUM.replace("+ alpha", "- alpha")))
bug("h_swap", NT, (SUM, SUM.replace("0.5 * rho * h * h + alpha * h", "0.5 * alpha * h * h + rho * h")))
bug("g_sign", NT, (LG, LG.replace("-1.0", "1.0")))
bug("g_half", NT, (LG, LG.replace("-1.0", "-0.5")))
bug("g_T", NT, (OG, OG.replace("E.T", "E")))
bug("g_two", NT, (OG, OG.replace(" * 2", "")))
bug("g_noalpha", NT, (OG, OG.replace(" + alpha)", ")")))
bug("g_notrace", NT, (OG, OG.replace("(np.trace(E) - d)", "np.trace(E)")))
bug("g_flatT", NT, (OG, OG.replace("obj_grad.flatten()", "obj_grad.T.flatten()")))
bug("g_expm", NT, ("        E = slin.expm(W * W)\n        obj_grad = loss_grad + (rho", "        E = slin.expm(W)\n        obj_grad = loss_grad + (rho"))
bug("l_beta", NT, (LSUM, LSUM.replace("beta * w_vec.sum()", "beta * w_pos.sum()")))
bug("l_diff", NT, (LSUM, LSUM.replace("beta * w_vec.sum()", "beta * (w_pos.sum() - w_neg.sum())")))
bug("l_half", NT, (LSUM, LSUM.replace("0.5 * rho", "rho")))
bug("l_loss", NT, (LLOSS, LLOSS.replace("- wmat)", "- wmat_pos)")))
bug("l_gneg", NT, (LOG, LOG.replace("-obj_grad.flatten()", "obj_grad.flatten()")))
bug("l_gpen", NT, (LOG, LOG.replace("-obj_grad.flatten() + lbd_grad", "-obj_grad.flatten() - lbd_grad")))
bug("l_gnone", NT, (LOG, LOG.replace("        grad_vec[d ** 2 :] = -obj_grad.flatten() + lbd_grad\n", "")))
bug("l_gswap", NT, (LOG, LOG.replace("[: d ** 2]", "[XX]").replace("[d ** 2 :]", "[: d ** 2]").replace("[XX]", "[d ** 2 :]")))
bug("l_gbeta", NT, (LOG, LOG.replace("beta * np.ones", "np.ones")))
bug("r_start", NT, ("    rho, alpha, h, h_new = 1.0, 0.0, np.inf, np.inf\n", "    rho, alpha, h, h_new = 1.0, 1.0, np.inf, np.inf\n"))
bug("r_rho0", NT, ("    rho, alpha, h, h_new = 1.0, 0.0, np.inf, np.inf\n", "    rho, alpha, h, h_new = 10.0, 0.0, np.inf, np.inf\n"))
bug("r_ten", NT, (INNER, INNER.replace("rho *= 10", "rho *= 2")))
bug("r_flip", NT, (INNER, INNER.replace("h_new > 0.25", "h_new < 0.25")))
bug("r_cold", NT, (INNER, INNER.replace("w_est, h = w_new, h_new\n", "h = h_new\n        w_best = w_new\n")), ids="any")
bug("r_alpha", NT, (INNER, INNER.replace("alpha += rho * h", "alpha = rho * h")))
bug("r_alpha_old", NT, (INNER, INNER.replace("        w_est, h = w_new, h_new\n        alpha += rho * h\n", "        alpha += rho * h\n        w_est, h = w_new, h_new\n")))
bug("r_max", NT, ("        while (rho < 1e20) and (h_new > 0.25 * h or", "        while (rho < 1e2) and (h_new > 0.25 * h or"))
bug("r_cond", NT, ("        while (rho < 1e20) and (h_new > 0.25 * h or h_new == np.inf):", "        while (rho < 1e20) and (h_new > 0.25 * h and h_new == np.inf):"))
bug("dy_sign", DY, ("_w_mat) - Xlags.dot(_a_mat), \"fro\"", "_w_mat) + Xlags.dot(_a_mat), \"fro\""))
bug("dy_lambda", DY, ("l1_penalty = lambda_w * (wa_vec[: 2 * d_vars ** 2].sum()) + lambda_a * (", "l1_penalty = lambda_a * (wa_vec[: 2 * d_vars ** 2].sum()) + lambda_w * ("))
bug("dy_split", DY, ("l1_penalty = lambda_w * (wa_vec[: 2 * d_vars ** 2].sum()) + lambda_a * (\n            wa_vec[2 * d_vars ** 2 :].sum()",
                     "l1_penalty = lambda_w * (wa_vec[: d_vars ** 2].sum()) + lambda_a * (\n            wa_vec[d_vars ** 2 :].sum()"))
bug("dy_gsign", DY, ("            (grad_vec_a, -grad_vec_a)\n", "            (-grad_vec_a, grad_vec_a)\n"))
bug("dy_order", DY, ("        grad_vec_a = np.hstack(\n            (grad_vec_a, -grad_vec_a)\n        ).flatten()", "        grad_vec_a = np.vstack(\n            (grad_vec_a, -grad_vec_a)\n        ).flatten()"))
bug("dy_glam", DY, (".flatten() + lambda_a * np.ones(", ".flatten() + lambda_w * np.ones("))
bug("dy_gX", DY, ("            * (Xlags.T.dot(X.dot(np.eye(d_vars, d_vars) - _w_mat) - Xlags.dot(_a_mat)))", "            * (Xlags.T.dot(X.dot(np.eye(d_vars, d_vars) - _w_mat)))"))
bug("dy_alpha", DY, ("        alpha += rho * h_value\n", "        alpha += h_value\n"))
bug("dy_warm", DY, ("                _func, wa_est, method", "                _func, wa_new, method"), ids="any")
bug("dy_axis", DY, ("            obj_grad_w, -obj_grad_w, axis=0\n", "            obj_grad_w, -obj_grad_w, axis=1\n"))

# progress of the inner loop, told differently
GROWN = "            if h_new > 0.25 * h:\n                rho *= 10\n"
assert GROWN in INNER
ref("pr_flag", NT, (INNER, INNER.replace(GROWN, "            worse = h_new > 0.25 * h\n            if worse:\n                rho *= 10\n")))
ref("pr_not", NT, (INNER, INNER.replace(GROWN, "            if not h_new <= 0.25 * h:\n                rho *= 10\n")))
ref("pr_else", NT, (INNER, INNER.replace(GROWN, "            if h_new <= 0.25 * h:\n                pass\n            else:\n                rho *= 10\n")))
ref("pr_bound", NT, (INNER, INNER.replace(GROWN, "            bound = 0.25 * h\n            if h_new > bound:\n                rho *= 10\n")))
ref("pr_grow", NT, (INNER, INNER.replace(GROWN, "            rho = rho * 10 if h_new > 0.25 * h else rho\n")))
ref("pr_break", NT, (INNER, INNER.replace(GROWN, "            if h_new <= 0.25 * h:\n                break\n            rho *= 10\n")))
bug("pr_stuck", NT, (INNER, INNER.replace(GROWN, "            if h_new > 0.5 * h:\n                rho *= 10\n")), ids="any")
bug("pr_shrink", NT, (INNER, INNER.replace("rho *= 10", "rho /= 10")), ids="any")
