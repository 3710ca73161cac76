"""Regression: equations for every frequency, and what solving them gives."""
import numpy as np


# ================================================================ regression input (P22)
@ensures("P22 P23", "regression.RegressionInputData.n_freqs")
def input_n_freqs(self):
    return len(self.freqs)


@ensures("P22 P23", "regression.RegressionInputData.get_inputs")
def get_inputs(self, freq_idx, out_chan):
    return self.obs[freq_idx][out_chan], self.preds[freq_idx]


@ensures("P22", "regression.RegressionInputData.__init__", view="post(self).freqs")
def init_freqs(self, metadata, tf, freqs, obs, preds):
    return freqs


@ensures("P22", "regression.RegressionInputData.__init__", view="post(self).obs")
def init_obs(self, metadata, tf, freqs, obs, preds):
    return obs


@ensures("P22", "regression.RegressionInputData.__init__", view="post(self).preds")
def init_preds(self, metadata, tf, freqs, obs, preds):
    return preds


@ensures("P22", "regression.RegressionInputData.__init__", view="post(self).tf")
def init_tf(self, metadata, tf, freqs, obs, preds):
    return tf


# real and imaginary parts of the cross powers of one output, alternating
def parts(x):
    flat = x.flatten()
    out = np.empty(flat.size * 2, dtype=float)
    out[0::2] = flat.real
    out[1::2] = flat.imag
    return out


def observations(tf, powers):
    return {chan: parts(powers[:, k, ...]) for k, chan in enumerate(tf.out_chans)}


# the equations of one window: rows alternate real, imaginary for each cross
# channel, columns alternate real, imaginary for each input channel
def window_equations(tf, powers):
    z = np.swapaxes(powers, 0, 1)
    out = np.empty((tf.n_cross * 2, tf.n_in * 2), dtype=float)
    out[0::2, 0::2] = np.real(z)
    out[0::2, 1::2] = -np.imag(z)
    out[1::2, 0::2] = np.imag(z)
    out[1::2, 1::2] = np.real(z)
    return out


def predictors(tf, powers):
    rows = tf.n_cross * 2
    out = np.empty((powers.shape[0] * rows, tf.n_in * 2), dtype=float)
    for k in range(powers.shape[0]):
        out[k * rows:k * rows + rows, :] = window_equations(tf, powers[k])
    return out


@ensures("P22", "regression.RegressionPreparerGathered._get_obs regression.RegressionPreparerSpectra._get_obs")
def get_obs(self, tf, out_powers):
    return observations(tf, out_powers)


@ensures("P22", "regression.RegressionPreparerGathered._get_preds_win regression.RegressionPreparerSpectra._get_preds_win")
def get_preds_win(self, tf, in_powers):
    return window_equations(tf, in_powers)


@ensures("P22", "regression.RegressionPreparerGathered._get_preds regression.RegressionPreparerSpectra._get_preds")
def get_preds(self, tf, in_powers):
    return predictors(tf, in_powers)


# ---------------------------------------------------------------- gathered data
def gathered_powers(x, cross):
    return x[..., None] * np.conj(cross[:, None, :])


@ensures("P22", "regression.RegressionPreparerGathered._get_cross_powers")
def gathered_cross_powers(self, tf, gathered_data, eval_idx):
    cross = gathered_data.cross_data.data[eval_idx]
    return (gathered_powers(gathered_data.out_data.data[eval_idx], cross),
            gathered_powers(gathered_data.in_data.data[eval_idx], cross))


@ensures("P22", "regression.RegressionPreparerGathered.run", view="ret.freqs")
def gathered_freqs(self, tf, gathered_data):
    return [f for f in gathered_data.out_data.metadata.eval_freqs]


@ensures("P22", "regression.RegressionPreparerGathered.run", view="ret.tf")
def gathered_tf(self, tf, gathered_data):
    return tf


@ensures("P22", "regression.RegressionPreparerGathered.run", view="ret.obs")
def gathered_obs(self, tf, gathered_data):
    g = gathered_data
    return [observations(tf, gathered_powers(g.out_data.data[k], g.cross_data.data[k])) for k in range(len(g.out_data.metadata.eval_freqs))]


@ensures("P22", "regression.RegressionPreparerGathered.run", view="ret.preds")
def gathered_preds(self, tf, gathered_data):
    g = gathered_data
    return [predictors(tf, gathered_powers(g.in_data.data[k], g.cross_data.data[k])) for k in range(len(g.out_data.metadata.eval_freqs))]


@ensures("P22 P23 P02", "regression.RegressionPreparerGathered.run", view="ret.metadata")
def gathered_metadata(self, tf, gathered_data):
    m = RegressionInputMetadata(contributors={"out_data": gathered_data.out_data.metadata,
                                              "in_data": gathered_data.in_data.metadata,
                                              "cross_data": gathered_data.cross_data.metadata})
    m.history.add_record(self._get_record(""))
    return m


# ---------------------------------------------------------------- spectra data
CHANS = ["spectra.SpectraData.get_chans"]


def spectra_powers(x, cross):
    return x[..., None, :] * np.conj(cross[:, None, ...])


def level_powers(tf, spec_data, level, chans):
    return spectra_powers(spec_data.get_chans(level, chans), spec_data.get_chans(level, tf.cross_chans))


@ensures("P22", "regression.RegressionPreparerSpectra._get_cross_powers", opaque=CHANS)
def spectra_cross_powers(self, tf, spec_data, level):
    return level_powers(tf, spec_data, level, tf.out_chans), level_powers(tf, spec_data, level, tf.in_chans)


@ensures("P22", "regression.RegressionPreparerSpectra.run", view="ret.freqs", opaque=CHANS)
def spectra_freqs(self, tf, spec_data):
    out = []
    for level in range(spec_data.metadata.n_levels):
        for f in spec_data.metadata.levels_metadata[level].freqs:
            out.append(f)
    return out


@ensures("P22", "regression.RegressionPreparerSpectra.run", view="ret.obs", opaque=CHANS)
def spectra_obs(self, tf, spec_data):
    out = []
    for level in range(spec_data.metadata.n_levels):
        x = level_powers(tf, spec_data, level, tf.out_chans)
        for k in range(len(spec_data.metadata.levels_metadata[level].freqs)):
            out.append(observations(tf, x[..., k]))
    return out


@ensures("P22", "regression.RegressionPreparerSpectra.run", view="ret.preds", opaque=CHANS)
def spectra_preds(self, tf, spec_data):
    out = []
    for level in range(spec_data.metadata.n_levels):
        x = level_powers(tf, spec_data, level, tf.in_chans)
        for k in range(len(spec_data.metadata.levels_metadata[level].freqs)):
            out.append(predictors(tf, x[..., k]))
    return out


@ensures("P22 P23 P02", "regression.RegressionPreparerSpectra.run", view="ret.metadata", opaque=CHANS, partial=True)
def spectra_metadata(self, tf, spec_data):
    m = RegressionInputMetadata(contributors={"data": spec_data.metadata})
    m.history.add_record(self._get_record(""))
    return m


# ================================================================ solutions (P23)
@ensures("P23", "regression.Solution.n_freqs")
def solution_n_freqs(self):
    return len(self.freqs)


@ensures("P23", "regression.Solution.periods")
def solution_periods(self):
    return np.reciprocal(self.freqs)


def component(self, key):
    if key not in self.components:
        raise ValueError("")
    c = self.components[key]
    return np.array(c.real) + 1j * np.array(c.imag)


@ensures("P23 P16", "regression.Solution.get_component")
def get_component(self, key):
    return component(self, key)


@ensures("P23 P16", "regression.Solution.__getitem__")
def solution_getitem(self, key):
    if not isinstance(key, str):
        raise ValueError("")
    return component(self, key)


@ensures("P23", "regression.Solution.get_tensor")
def get_tensor(self, eval_idx):
    out = np.zeros(shape=(self.tf.n_out, self.tf.n_in), dtype=np.complex128)
    for j, o in enumerate(self.tf.out_chans):
        for k, i in enumerate(self.tf.in_chans):
            c = self.components[o + i]
            out[j, k] = c.real[eval_idx] + 1j * c.imag[eval_idx]
    return out


# ================================================================ solving (P23)
def coef_values(tf, coef):
    out = np.empty(tf.n_in, dtype=np.complex128)
    for k in range(tf.n_in):
        out[k] = coef[2 * k] + 1j * coef[2 * k + 1]
    return out


@ensures("P23", "regression.SolverScikit._get_tensor")
def get_coef_tensor(self, tf, coef):
    return coef_values(tf, coef)


def components_of(tf, tensors):
    out = {}
    for j, o in enumerate(tf.out_chans):
        for k, i in enumerate(tf.in_chans):
            x = tensors[:, j, k]
            out[o + i] = Component(real=x.real.tolist(), imag=x.imag.tolist())
    return out


def solution_of(self, tf, regression_input, tensors):
    h = History(**regression_input.metadata.history.dict())
    h.add_record(self._get_record(""))
    return Solution(tf=tf, freqs=regression_input.freqs, components=components_of(tf, tensors), history=h, contributors=regression_input.metadata.contributors)


@ensures("P23 P02", "regression.SolverScikit._get_solution")
def get_solution(self, tf, regression_input, tensors):
    return solution_of(self, tf, regression_input, tensors)


@ensures("P23 P02", "regression.SolverScikit._solve", virtual=["regression.SolverScikit._get_coef"])
def solve(self, regression_input, model):
    tf = regression_input.tf
    n = len(regression_input.freqs)
    tensors = np.ndarray((n, tf.n_out, tf.n_in), dtype=np.complex128)
    for k in range(n):
        for j, chan in enumerate(tf.out_chans):
            tensors[k, j] = coef_values(tf, self._get_coef(model, regression_input.obs[k][chan], regression_input.preds[k]))
    return solution_of(self, tf, regression_input, tensors)


@ensures("P23", "regression.SolverScikit._get_coef", view="effects")
def fit_effects(self, model, obs, preds):
    model.fit(preds, obs)


@ensures("P23", "regression.SolverScikit._get_coef")
def fit_coef(self, model, obs, preds):
    return model.coef_


@ensures("P23 P27", "regression.SolverScikitOLS.run", opaque=["regression.SolverScikit._solve"])
def ols(self, regression_input):
    from sklearn.linear_model import LinearRegression
    return self._solve(regression_input, LinearRegression(fit_intercept=self.fit_intercept, normalize=self.normalize, n_jobs=self.n_jobs))


@ensures("P23 P27", "regression.SolverScikitHuber.run", opaque=["regression.SolverScikit._solve"])
def huber(self, regression_input):
    from sklearn.linear_model import HuberRegressor
    return self._solve(regression_input, HuberRegressor(epsilon=self.epsilon, fit_intercept=self.fit_intercept))


@ensures("P23 P27", "regression.SolverScikitTheilSen._get_coef")
def theilsen_coef(self, model, obs, preds):
    from sklearn.linear_model import TheilSenRegressor
    n = None
    if self.n_subsamples is not None:
        n = int(self.n_subsamples * obs.shape[0])
    m = TheilSenRegressor(fit_intercept=self.fit_intercept, max_subpopulation=self.max_subpopulation, n_subsamples=n, n_jobs=self.n_jobs)
    m.fit(preds, obs)
    return m.coef_


@ensures("P23", "regression.SolverScikitTheilSen._get_coef", view="effects")
def theilsen_effects(self, model, obs, preds):
    from sklearn.linear_model import TheilSenRegressor
    n = None
    if self.n_subsamples is not None:
        n = int(self.n_subsamples * obs.shape[0])
    m = TheilSenRegressor(fit_intercept=self.fit_intercept, max_subpopulation=self.max_subpopulation, n_subsamples=n, n_jobs=self.n_jobs)
    m.fit(preds, obs)


@ensures("P23", "regression.SolverScikitTheilSen.run", opaque=["regression.SolverScikit._solve"])
def theilsen(self, regression_input):
    return self._solve(regression_input, ANY)


@ensures("P23 P27", "regression.SolverScikitRANSAC.run", opaque=["regression.SolverScikit._solve"])
def ransac(self, regression_input):
    from sklearn.linear_model import LinearRegression, RANSACRegressor
    return self._solve(regression_input, RANSACRegressor(LinearRegression(fit_intercept=self.fit_intercept, normalize=self.normalize),
                                                         min_samples=self.min_samples, max_trials=self.max_trials))


@ensures("P23", "regression.SolverScikitRANSAC._get_coef", view="effects")
def ransac_effects(self, model, obs, preds):
    model.fit(preds, obs)


@ensures("P23", "regression.SolverScikitRANSAC._get_coef")
def ransac_coef(self, model, obs, preds):
    return model.estimator_.coef_


# ---------------------------------------------------------------- weighted least squares
def flat(r):
    return r.reshape(r.shape[0])


def trimmed(r, k):
    r = flat(r)
    w = np.zeros(shape=r.shape)
    w[np.where(r <= k)] = 1
    return w.real


@ensures("P23", "regression.SolverScikitWLS.trimmed_mean")
def trimmed_mean(self, r, k):
    return trimmed(r, k)


@ensures("P23", "regression.SolverScikitWLS.bisquare")
def bisquare(self, r, k):
    r = flat(r)
    return np.power(1 - np.power(np.minimum(np.ones(shape=r.shape), r / k), 2), 2)


@ensures("P23", "regression.SolverScikitWLS.huber")
def huber_weights(self, r, k):
    r = flat(r)
    big = np.where(r > k)
    w = np.ones(shape=r.shape)
    w[big] = k / r[big]
    return w


@ensures("P23 P27", "regression.SolverScikitWLS._get_coef", view="effects")
def wls_effects(self, model, obs, preds):
    from sklearn.preprocessing import RobustScaler
    scaler = RobustScaler()
    w = np.ones(shape=obs.size)
    for k in range(self.n_iter):
        model.fit(preds, obs, sample_weight=w)
        r = np.absolute(obs - model.predict(preds))
        w = trimmed(scaler.fit_transform(r.reshape(-1, 1)), 2)


@ensures("P23", "regression.SolverScikitWLS._get_coef")
def wls_coef(self, model, obs, preds):
    return model.coef_
