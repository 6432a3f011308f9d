from rf import run
LD='weak_forms/laplace_dual_weak_form.py'
LP='weak_forms/lce_primal_weak_form.py'
tests={
'helper-fn':[(LD,'class LaplaceDualWeakForm(','''def _div(g, d):
    return np.array([np.trace(g, axis1=0, axis2=2) / d])


class LaplaceDualWeakForm('''),(LD,'''np.array(
                    [np.trace(grad_psi_h, axis1=0, axis2=2) / det_jac[i]]
                )''','_div(grad_psi_h, det_jac[i])')],
'helper-method':[(LD,'''        points, weights = self.space.quadrature[dim]
        x, jac, det_jac, inv_jac = u_space.elements[iel].evaluate_mapping(points)
''','''        points, weights, (x, jac, det_jac, inv_jac) = self._rule(u_space.elements[iel], dim)
'''),(LD,'class LaplaceDualWeakForm(WeakForm):\n','''class LaplaceDualWeakForm(WeakForm):
    def _rule(self, element, dim):
        points, weights = self.space.quadrature[dim]
        return points, weights, element.evaluate_mapping(points)

''')],
'range-loop':[(LD,'''for i, omega in enumerate(weights):
                xv = x[i]
''','''for i in range(len(weights)):
                omega = weights[i]
                xv = x[i]
''')],
'zip-loop':[(LD,'''            for i, omega in enumerate(weights):
                p_D_v = p_D(x[i, 0], x[i, 1], x[i, 2])
                phi = q_tr''','''            for i, (omega, xi) in enumerate(zip(weights, x)):
                p_D_v = p_D(xi[0], xi[1], xi[2])
                phi = q_tr''')],
'star-args':[(LD,'f_kappa(xv[0], xv[1], xv[2])','f_kappa(*xv)')],
'star-args2':[(LD,'p_D(x[i, 0], x[i, 1], x[i, 2])','p_D(*x[i, 0:3])')],
'einsum':[(LD,'''el_form[b:e:p_components] -= phi_s_star @ f_val_star[c].T''','''el_form[b:e:p_components] -= np.einsum("jq,q->j", phi_s_star, f_val_star[c])''')],
'aug':[(LD,'''el_form += det_jac[i] * omega * discrete_integrand''','''el_form = el_form + discrete_integrand * (omega * det_jac[i])''')],
'hoist-measure':[(LD,'''            for i, omega in enumerate(weights):
                xv = x[i]
''','''            measure = det_jac * weights
            for i in range(measure.shape[0]):
                dv = measure[i]
                xv = x[i]
'''),(LD,'''el_form += det_jac[i] * omega * discrete_integrand''','el_form += dv * discrete_integrand')],
'vec-bc':[(LD,'''            for i, omega in enumerate(weights):
                p_D_v = p_D(x[i, 0], x[i, 1], x[i, 2])
                phi = q_tr_phi_tab[0, i, dof_n_index, 0:dim] @ n[0:dim]
                res_block_q += det_jac[i] * omega * p_D_v[c] * phi
''','''            p_D_v = p_D(x[:, 0], x[:, 1], x[:, 2])
            for i, omega in enumerate(weights):
                phi = q_tr_phi_tab[0, i, dof_n_index, 0:dim] @ n[0:dim]
                res_block_q += det_jac[i] * omega * p_D_v[c][i] * phi
''')],
'swap-loops':[(LD,'''            res_block_q = np.zeros(n_q_phi)
            dim = neigh_cell.dimension
            for i, omega in enumerate(weights):
                p_D_v = p_D(x[i, 0], x[i, 1], x[i, 2])
                phi = q_tr_phi_tab[0, i, dof_n_index, 0:dim] @ n[0:dim]
                res_block_q += det_jac[i] * omega * p_D_v[c] * phi

            r_el[b:e:u_components] += res_block_q
''','''            dim = neigh_cell.dimension
            for i, omega in enumerate(weights):
                p_D_v = p_D(x[i, 0], x[i, 1], x[i, 2])
                phi = q_tr_phi_tab[0, i, dof_n_index, 0:dim] @ n[0:dim]
                r_el[b:e:u_components] += det_jac[i] * omega * p_D_v[c] * phi
''')],
'neigh-helper':[(LD,'''        neigh_cell_index = u_space.id_to_element[neigh_cell_id]
        neigh_element = u_space.elements[neigh_cell_index]
''','''        neigh_element = u_space.elements[u_space.id_to_element[neigh_cell_id]]
''')],
'sum-integrand':[(LD,'''                multiphysic_integrand = np.zeros((1, n_dof))
                multiphysic_integrand[:, 0:n_q_dof:1] = equ_1_integrand
                multiphysic_integrand[:, n_q_dof:n_dof:1] = equ_2_integrand
                discrete_integrand = (multiphysic_integrand).reshape((n_dof,))
                el_form += det_jac[i] * omega * discrete_integrand
''','''                dv = det_jac[i] * omega
                el_form[idx_dof["u"]] += dv * equ_1_integrand.reshape((n_q_dof,))
                el_form[idx_dof["p"]] += dv * equ_2_integrand.reshape((n_p_dof,))
''')],
'flatten':[(LD,'(multiphysic_integrand).reshape((n_dof,))','multiphysic_integrand.reshape(-1)')],
'while':[(LD,'''            for i, omega in enumerate(weights):
                p_D_v = p_D(x[i, 0], x[i, 1], x[i, 2])
                phi = q_tr_phi_tab[0, i, dof_n_index, 0:dim] @ n[0:dim]
                res_block_q += det_jac[i] * omega * p_D_v[c] * phi
''','''            i = 0
            while i < len(weights):
                p_D_v = p_D(x[i, 0], x[i, 1], x[i, 2])
                phi = q_tr_phi_tab[0, i, dof_n_index, 0:dim] @ n[0:dim]
                res_block_q += det_jac[i] * weights[i] * p_D_v[c] * phi
                i += 1
''')],
'lp-voigt':[(LP,'inv_jac_m = np.vstack((inv_jac[i] @ e1, inv_jac[i] @ e2))','inv_jac_m = np.vstack([inv_jac[i] @ e for e in (e1, e2)])')],
'lp-stack':[(LP,'inv_jac_m = np.vstack((inv_jac[i] @ e1, inv_jac[i] @ e2))','inv_jac_m = inv_jac[i][:, 0:2].T')],
'lp-sig':[(LP,'''                    Skew_eh = 0.5 * (eh - eh.T)
                    tr_eh''','''                    Skew_eh = eh - Symm_eh
                    tr_eh''')],
'lp-comb':[(LP,'''                        2.0 * f_mu(xv[0], xv[1], xv[2]) * Symm_eh
                        + 2.0 * f_kappa(xv[0], xv[1], xv[2]) * Skew_eh
                        + f_lambda''','''                        f_mu(xv[0], xv[1], xv[2]) * (eh + eh.T)
                        + f_kappa(xv[0], xv[1], xv[2]) * (eh - eh.T)
                        + f_lambda''')],
'matvec-assign':[(LD,'''            for c in range(p_components):
                b = c + n_q_dof
                e = b + n_p_dof
                el_form[b:e:p_components] -= phi_s_star @ f_val_star[c].T
''','''            for c, f_c in enumerate(f_val_star):
                el_form[n_q_dof + c :: p_components] -= phi_s_star @ f_c
''')],
}
import sys
for k,e in tests.items():
    if len(sys.argv)>1 and k not in sys.argv[1:]: continue
    print('==',k); o=run(e,props=("P01","P02","P03","P04","P10"),show=2)
    print('\n'.join(o or []))
