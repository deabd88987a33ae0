From 355b993d34f4264db5b25048c6435ded6c436ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 01/51] fix: apply unconditional residual quantiles when
 conditional_to_hour is False

---
 pyforecaster/forecaster.py                                 | 4 ++++
 pyforecaster/forecasting_models/gradientboosters.py        | 2 ++
 pyforecaster/forecasting_models/neural_models/INN.py       | 2 ++
 pyforecaster/forecasting_models/neural_models/base_nn.py   | 2 ++
 pyforecaster/forecasting_models/random_fourier_features.py | 4 ++++
 5 files changed, 14 insertions(+)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index b579883..56d5755 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -350,6 +350,8 @@ class LinearForecaster(ScenarioGenerator):
 
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
+        if not self.conditional_to_hour:
+            return preds + np.expand_dims(self.err_distr, 0)
         for h in np.unique(x.index.hour):
             preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
         return preds
@@ -408,6 +410,8 @@ class LGBForecaster(ScenarioGenerator):
 
     def _predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
+        if not self.conditional_to_hour:
+            return preds + np.expand_dims(self.err_distr, 0)
         for h in np.unique(x.index.hour):
             preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
         return preds
diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index 434bedb..1c71444 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -167,6 +167,8 @@ class LGBMHybrid(ScenarioGenerator):
 
     def _predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
+        if not self.conditional_to_hour:
+            return preds + np.expand_dims(self.err_distr, 0)
         for h in np.unique(x.index.hour):
             preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
         return preds
diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index 375d32d..0ae52a4 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -225,6 +225,8 @@ class CausalInvertibleNN(NN):
 
     def predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
+        if not self.conditional_to_hour:
+            return preds + np.expand_dims(self.err_distr, 0)
         for h in np.unique(x.index.hour):
             preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
         return preds
diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 33089ee..911a503 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -501,6 +501,8 @@ class NN(ScenarioGenerator):
                 preds[:, :, i] += sigma_hat * np.sqrt(2) * erfinv(2*q-1)
         else:
             preds = np.expand_dims(self.predict(inputs), -1) * np.ones((1, 1, len(self.q_vect)))
+            if not self.conditional_to_hour:
+                return preds + np.expand_dims(self.err_distr, 0)
             for h in np.unique(inputs.index.hour):
                 preds[inputs.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
         return preds
diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 487da6d..006a60c 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -353,6 +353,8 @@ class RFFRegression(RandomFFRegressor, ScenarioGenerator):
         return y_hat
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
+        if not self.conditional_to_hour:
+            return preds + np.expand_dims(self.err_distr, 0)
         for h in np.unique(x.index.hour):
             preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
         return preds
@@ -394,6 +396,8 @@ class AdditiveRFFRegression(ScenarioGenerator):
         return y_hat
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
+        if not self.conditional_to_hour:
+            return preds + np.expand_dims(self.err_distr, 0)
         for h in np.unique(x.index.hour):
             preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
         return preds
\ No newline at end of file
-- 
2.43.0


From 6be1da5d3d979afe62107332791a8ba232b14508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 02/51] fix: QRF quantile arrays follow the target-major column
 order of the quantile table

---
 pyforecaster/forecasting_models/randomforests.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 59b57d5..a5fffba 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -187,8 +187,7 @@ class QRF(ScenarioGenerator):
     def quantiles_to_numpy(q_hat: pd.DataFrame):
         n_taus = len(q_hat.columns.get_level_values(1).unique())
         q_hat = q_hat.values
-        q_hat = np.reshape(q_hat, (q_hat.shape[0], n_taus, -1))
-        q_hat = np.swapaxes(q_hat, 1, 2)
+        q_hat = np.reshape(q_hat, (q_hat.shape[0], -1, n_taus))
         return q_hat
 
     def predict_quantiles(self, x, dataframe=True, **kwargs):
-- 
2.43.0


From 3390cfa8168344d0fc7d89c943b1e3a75b01ea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 03/51] fix: QRF point forecasts with a single target keep one
 row per observation

---
 pyforecaster/forecasting_models/randomforests.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index a5fffba..8cc458c 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -141,14 +141,14 @@ class QRF(ScenarioGenerator):
         preds = np.dstack(preds)
         if 'quantiles' in kwargs:
             if str(kwargs['quantiles']) == 'mean':
-                preds = pd.DataFrame(np.atleast_2d(np.squeeze(preds)), index=x.index, columns=self.target_cols)
+                preds = pd.DataFrame(preds.reshape(len(x), -1), index=x.index, columns=self.target_cols)
             else:
                 if len(preds.shape) == 2:
                     preds = np.expand_dims(preds, 0)
                 preds = np.swapaxes(preds, 1, 2)
                 preds = self.quantiles_to_df(preds, index=x.index, q_vect=kwargs['quantiles'])
         else:
-            preds = pd.DataFrame(np.atleast_2d(np.squeeze(preds)), index=x.index, columns=self.target_cols)
+            preds = pd.DataFrame(preds.reshape(len(x), -1), index=x.index, columns=self.target_cols)
         y_hat = self.anti_transform(x, preds)
         return y_hat
 
-- 
2.43.0


From aeff66606f5d5bf7c1b7f9dd2aca0beb56b0599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 04/51] fix: fitting a forecaster again replaces the models of
 the previous fit

---
 pyforecaster/forecaster.py                          | 1 +
 pyforecaster/forecasting_models/gradientboosters.py | 4 +++-
 pyforecaster/forecasting_models/randomforests.py    | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 56d5755..d0fc8f1 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -392,6 +392,7 @@ class LGBForecaster(ScenarioGenerator):
 
     def fit(self, x, y):
         x, y, x_val, y_val = self.train_val_split(x, y)
+        self.m = []
         for i in tqdm(range(y.shape[1]), 'fitting LGB models'):
             lgb_data = Dataset(x, y.iloc[:, i].values.ravel())
             m = train(self.lgb_pars, lgb_data, num_boost_round=self.lgb_pars['n_estimators'])
diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index 1c71444..39c310f 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -82,6 +82,7 @@ class LGBMHybrid(ScenarioGenerator):
             with concurrent.futures.ProcessPoolExecutor(max_workers=cpu_count()-2) as executor:
                 self.models = list(executor.map(partial(self.fit_single, x=x, y=y, lgb_pars=lgb_pars), np.arange(self.n_single)))
         else:
+            self.models = []
             for i in tqdm(range(self.n_single)):
                 x_i = self.dataset_at_stepahead(x, i,  self.metadata_features, formatter=self.formatter,
                                                 logger=self.logger, method='periodic', keep_last_n_lags=self.keep_last_n_lags,
@@ -179,6 +180,7 @@ class LGBEnergyAware(LGBMHybrid):
         lgb_pars = self.get_lgb_pars()
         x, y, x_val, y_val = self.train_val_split(x, y)
         e_unbalance = pd.DataFrame()
+        self.models = []
         for i in tqdm(range(self.n_single)):
             x_i = self.dataset_at_stepahead(x, i,  self.metadata_features, formatter=self.formatter,
                                             logger=self.logger, method='periodic', keep_last_n_lags=self.keep_last_n_lags,
@@ -197,7 +199,7 @@ class LGBEnergyAware(LGBMHybrid):
             preds_i_no_ctrl = self.models[i].predict(x_i_no_ctrl)
             e_unbalance = pd.concat([e_unbalance, pd.Series(preds_i_no_ctrl-preds_i, index=x_i.index)], axis=1)
 
-        super().fit(x_val, y_val)
+        super(LGBMHybrid, self).fit(x_val, y_val)
         return self
 
     def predict(self, x, **kwargs):
diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 8cc458c..920b6db 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -105,6 +105,7 @@ class QRF(ScenarioGenerator):
             with concurrent.futures.ProcessPoolExecutor(max_workers=self.max_parallel_workers) as executor:
                 self.models = [i for i in tqdm(executor.map(partial(self._fit, x=x, y=y, sample_weight=sample_weight), range(self.n_single)),total=self.n_single)]
         else:
+            self.models = []
             for i in tqdm(range(self.n_single)):
                 model = self._fit(i, x, y, sample_weight=sample_weight)
                 self.models.append(model)
-- 
2.43.0


From 0fdd8b3427a3c023f8186ff4d95ef68552cca889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 05/51] fix: hyperparameters changed with set_params take
 effect in the next fit

---
 pyforecaster/forecaster.py                       | 2 ++
 pyforecaster/forecasting_models/randomforests.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index d0fc8f1..bf59cd8 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -393,6 +393,8 @@ class LGBForecaster(ScenarioGenerator):
     def fit(self, x, y):
         x, y, x_val, y_val = self.train_val_split(x, y)
         self.m = []
+        # hyperparameters may have been changed by set_params since the constructor was called
+        self.lgb_pars = {k: getattr(self, k, v) for k, v in self.lgb_pars.items()}
         for i in tqdm(range(y.shape[1]), 'fitting LGB models'):
             lgb_data = Dataset(x, y.iloc[:, i].values.ravel())
             m = train(self.lgb_pars, lgb_data, num_boost_round=self.lgb_pars['n_estimators'])
diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 920b6db..01c2178 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -101,6 +101,8 @@ class QRF(ScenarioGenerator):
     @encode_categorical
     def fit(self, x, y, sample_weight=None):
         x, y, x_val, y_val = self.train_val_split(x, y)
+        # hyperparameters may have been changed by set_params since the constructor was called
+        self.qrf_pars = {k: getattr(self, k, v) for k, v in self.qrf_pars.items()}
         if self.parallel:
             with concurrent.futures.ProcessPoolExecutor(max_workers=self.max_parallel_workers) as executor:
                 self.models = [i for i in tqdm(executor.map(partial(self._fit, x=x, y=y, sample_weight=sample_weight), range(self.n_single)),total=self.n_single)]
-- 
2.43.0


From 880cbc075d6b5339e3d1d2e13cb4bddbb266d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 06/51] fix: QRF passes its max_depth setting to the forest

---
 pyforecaster/forecasting_models/randomforests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 01c2178..76876df 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -87,7 +87,8 @@ class QRF(ScenarioGenerator):
             "min_impurity_decrease": min_impurity_decrease,
             "default_quantiles":q_vect if q_vect is not None else 'mean',
             "criterion":criterion,
-             "ccp_alpha":ccp_alpha
+             "ccp_alpha":ccp_alpha,
+            "max_depth": max_depth
         }
 
     def _fit(self, i, x, y, sample_weight=None):
-- 
2.43.0


From ca34d25ffceebbd6f33c07507ddceb49d4eb9e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 07/51] fix: categorical encoding leaves the caller's table
 alone and is re-learnt at each fit

---
 pyforecaster/forecaster.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index bf59cd8..842ac4f 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -26,9 +26,12 @@ def _validate_max_scengen_rows(value: Optional[Union[int, np.integer]]):
 def encode_categorical(func):
     def wrapper(self, x: pd.DataFrame, *args, **kwargs):
         # Initialize a protected dictionary to store encoders if it doesn't exist yet
-        if not hasattr(self, '_le'):
+        if not hasattr(self, '_le') or func.__name__ == 'fit':
             self._le = {}
 
+        # do not write the encoded columns in the caller's DataFrame
+        x = x.copy()
+
         # Check if x contains columns that are not numbers and encode them
         for column in x.select_dtypes(include=['object', 'category']).columns:
             if column not in self._le:
-- 
2.43.0


From 0fbee48f60531add8470b0aadceb2a7974725b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 08/51] fix: cross-validation folds given as positions work for
 any row labels

---
 pyforecaster/trainer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index 077b051..0a5ffa4 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -51,12 +51,12 @@ def cross_validate(x: pd.DataFrame, y: pd.DataFrame, model, cv_folds, scoring=No
             trial.set_user_attr('cv_test_scores', scores)
 
         if storage_fun:
-            cv_results['y_te'] = {'fold_{}'.format(i): y.loc[cv_idxs[1]] for i, cv_idxs in enumerate(cv_folds)}
-            cv_results['y_hat'] = {'fold_{}'.format(i): m.predict(x.loc[cv_idxs[1]]) for i, cv_idxs, m in
+            cv_results['y_te'] = {'fold_{}'.format(i): y.iloc[cv_idxs[1]] for i, cv_idxs in enumerate(cv_folds)}
+            cv_results['y_hat'] = {'fold_{}'.format(i): m.predict(x.iloc[cv_idxs[1]]) for i, cv_idxs, m in
                                    zip(range(len(cv_folds)), cv_folds, cv_results['estimator'])}
     elif cv_type == 'random_fold':
         tr_idx, te_idx = cv_folds[np.random.choice(len(cv_folds), 1)[0]]
-        x_tr, x_te, y_tr, y_te = x.loc[tr_idx], x.loc[te_idx], y.loc[tr_idx], y.loc[te_idx]
+        x_tr, x_te, y_tr, y_te = x.iloc[tr_idx], x.iloc[te_idx], y.iloc[tr_idx], y.iloc[te_idx]
         model.fit(x_tr, y_tr)
         y_hat = model.predict(x_te)
         cv_results = {k:np.atleast_1d(s(model, x_te, y_te)) for k, s in scoring.items()} if isinstance(scoring, dict) else {'test_score': np.atleast_1d(scoring(model, x_te, y_te))}
-- 
2.43.0


From 5c0eb66ef7fb0cfbc6382e4e8cdaa0e01d987051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 09/51] fix: a transformer re-used on data with another
 sampling time recomputes its aggregation window

---
 pyforecaster/formatter.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index a2048fb..5d141cc 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -736,10 +736,12 @@ class Transformer:
             # infer sampling time
             dt = self.dt if self.dt is not None else x[name].index.to_series().diff().median()
 
-            if self.agg_freq is None:
-                self.agg_freq = dt
-            elif isinstance(self.agg_freq, (np.int8, np.int32, np.int64, int)):
-                self.agg_freq *= dt
+            # do not overwrite self.agg_freq: the next dataset could have a different sampling time
+            agg_freq = self.agg_freq
+            if agg_freq is None:
+                agg_freq = dt
+            elif isinstance(agg_freq, (np.int8, np.int32, np.int64, int)):
+                agg_freq = agg_freq * dt
 
             # agg_steps = number of steps on which aggregation stats are retrieved
             # agg_time = time range on which aggregation stats are retrieved
@@ -748,7 +750,7 @@ class Transformer:
                 agg_steps = np.max(self.agg_bins)-np.min(self.agg_bins)
                 spacing_time = dt
             else:
-                agg_steps = int(pd.Timedelta(self.agg_freq) / dt)
+                agg_steps = int(pd.Timedelta(agg_freq) / dt)
                 spacing_time = dt * agg_steps if self.relative_lags else dt
 
             trans_names = [name]
@@ -756,11 +758,11 @@ class Transformer:
             if self.functions:
                 function_names = [get_fun_name(s) for s in self.functions]
                 if self.agg_bins is None:
-                    hr_agg_freq = self.agg_freq if isinstance(self.agg_freq, str) else hr_timedelta(self.agg_freq.to_timedelta64())
+                    hr_agg_freq = agg_freq if isinstance(agg_freq, str) else hr_timedelta(agg_freq.to_timedelta64())
                     trans_names = ['{}_{}_{}'.format(name, hr_agg_freq, p) for p in function_names]
 
                     if not simulate:
-                        d = d.rolling(self.agg_freq, min_periods=agg_steps).agg(self.functions)
+                        d = d.rolling(agg_freq, min_periods=agg_steps).agg(self.functions)
                         d.columns = trans_names
                 else:
                     if not simulate:
@@ -816,7 +818,7 @@ class Transformer:
 
                 metadata_n = pd.DataFrame(lags_and_fun, columns=['lag', 'function'], index=trans_names)
 
-                metadata_n['aggregation_time'] = self.agg_freq
+                metadata_n['aggregation_time'] = agg_freq
                 metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
 
                 metadata_n['start_time'] = - spacing_time * lags_aux - agg_steps * dt + dt
@@ -825,7 +827,7 @@ class Transformer:
                 lags_expanded = np.outer(lag_steps, np.ones(len(self.agg_bins) - 1)).ravel()
                 lags_and_fun =product(function_names, lags_expanded)
                 metadata_n = pd.DataFrame(lags_and_fun, columns=['function', 'lag'], index=trans_names)
-                metadata_n['aggregation_time'] = self.agg_freq
+                metadata_n['aggregation_time'] = agg_freq
                 metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
                 if self.nested:
                     metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for i, name, l in
-- 
2.43.0


From 1d4e790d12c934602cccf409612979c0ef0efcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 10/51] fix: metadata of binned features follows the order of
 the generated columns

---
 pyforecaster/formatter.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 5d141cc..2969abc 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -824,21 +824,18 @@ class Transformer:
                 metadata_n['start_time'] = - spacing_time * lags_aux - agg_steps * dt + dt
                 metadata_n['end_time'] = - spacing_time * lags_aux + dt
             else:
-                lags_expanded = np.outer(lag_steps, np.ones(len(self.agg_bins) - 1)).ravel()
-                lags_and_fun =product(function_names, lags_expanded)
-                metadata_n = pd.DataFrame(lags_and_fun, columns=['function', 'lag'], index=trans_names)
-                metadata_n['aggregation_time'] = agg_freq
-                metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
+                # same order of trans_names: lags are the outermost level
+                bins = np.arange(len(self.agg_bins) - 1)
                 if self.nested:
-                    metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for i, name, l in
-                                                product(np.arange(len(self.agg_bins) - 1), function_names, lag_steps)]
-                    metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1]+l) + dt for i, name, l in
-                                                product(np.arange(len(self.agg_bins) - 1), function_names, lag_steps)]
+                    lag_bin_fun = [(l, i, f) for l, i, f in product(lag_steps, bins, function_names)]
                 else:
-                    metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for name, i, l in
-                                                product(function_names, np.arange(len(self.agg_bins) - 1), lag_steps)]
-                    metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1]+l) + dt for name, i, l in
-                                              product(function_names, np.arange(len(self.agg_bins) - 1), lag_steps)]
+                    lag_bin_fun = [(l, i, f) for l, f, i in product(lag_steps, function_names, bins)]
+                metadata_n = pd.DataFrame([(f, float(l)) for l, i, f in lag_bin_fun], columns=['function', 'lag'],
+                                          index=trans_names)
+                metadata_n['aggregation_time'] = agg_freq
+                metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
+                metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for l, i, f in lag_bin_fun]
+                metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1] + l) + dt for l, i, f in lag_bin_fun]
             metadata_n['name'] = name
             metadata_n['relative_lags'] = self.relative_lags
 
-- 
2.43.0


From d43a553ddbbfafa32fae673b2f0f48e79c21de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 11/51] fix: non-nested binned features are not dropped for the
 most recent rows

---
 pyforecaster/formatter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 2969abc..6623479 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -787,6 +787,7 @@ class Transformer:
                                 d_rolled = d.rolling(window=indexer, min_periods=agg_steps).apply(reducer.reduce)
                                 partial_res.append(np.vstack(reducer.stats).tolist())
                             d = pd.DataFrame(np.hstack(partial_res), index=d_rolled.index[~d_rolled.isna()], columns=trans_names)
+                            d = d.reindex(d_rolled.index)
                             d = d.shift(np.max(self.original_agg_bins)-1)
                     else:
                         if self.nested:
-- 
2.43.0


From b3a28beddfc41fdaee2df49e1fffda7dea5860ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 12/51] fix: normalisation only touches the columns derived
 from the normalised signal

---
 pyforecaster/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 6623479..6920087 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -324,7 +324,7 @@ class Formatter:
         for target_to_norm in np.unique(target_to_norm_names):
             for tr in self.transformers:
                 # find df_n columns to normalize
-                nr_columns = (tr.metadata['name'].isin([target_to_norm])).index
+                nr_columns = tr.metadata.index[tr.metadata['name'].isin([target_to_norm])]
                 for c in nr_columns:
                     x.loc[:, c] = self.normalizing_wrapper(normalizing_fun, x, c)
 
@@ -337,7 +337,7 @@ class Formatter:
 
         for target_to_norm in np.unique(target_to_norm_names):
             for tr in self.target_transformers:
-                nr_columns = (tr.metadata['name'].isin([target_to_norm])).index
+                nr_columns = tr.metadata.index[tr.metadata['name'].isin([target_to_norm])]
                 for c in nr_columns:
                     df_n.loc[:, c] = self.normalizing_wrapper(normalizing_fun, df_n, c)
         y = df_n[[c for c in y.columns]]
-- 
2.43.0


From 0d36ded99988d33f70a8ba95a8c07007e49ad2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 13/51] fix: target normalizers accept a lag

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 6920087..f77e904 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -146,7 +146,7 @@ class Formatter:
         assert len(target) == 1, 'only one target can be normalized per time. If you want to normalize two targets call this method twice'
         if lags is not None:
             assert len(lags) == 1, 'only one lag is admissible for the normalization.'
-            assert np.all(lags>0), 'you cannot normalize with future values, all lags should be positive'
+            assert np.all(np.array(lags)>0), 'you cannot normalize with future values, all lags should be positive'
 
         transformer = Transformer(target, functions=function, agg_freq=agg_freq, lags=lags, logger=self.logger,
                                   relative_lags=relative_lags, agg_bins=agg_bins, dt=self.dt, name=name)
-- 
2.43.0


From bea188533532db4fbc890b932c133efcd7679f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 14/51] fix: binned features use the declared sampling time

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index f77e904..5482935 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -698,7 +698,7 @@ class Transformer:
                     step_to = self.original_agg_bins[i + 1]
                     freq = step_from - step_to
                     tr = Transformer(names, functions, agg_freq=freq, lags=[step_to], nested=False,
-                                     logger=get_logger(logging.WARNING))
+                                     logger=get_logger(logging.WARNING), dt=dt)
                     self.transformers.append(tr)
         else:
             self.agg_bins = None
-- 
2.43.0


From 86afeba9ea50e9e7053e3fca230ed8d4d3d9bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 15/51] fix: denormalising a quantile table leaves the passed
 table alone

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 5482935..d365579 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -348,7 +348,7 @@ class Formatter:
             self.logger.warning('You did not pass any denormalization expression, ** no denormalization will be applied **. '
                                 '\bYou can set a denormalization expression by calling Formatter.add_normalizing_fun ')
             return y
-        y, _ = self.normalize(x.copy(), y, normalizing_fun=self.denormalizing_fun)
+        y, _ = self.normalize(x.copy(), y.copy(), normalizing_fun=self.denormalizing_fun)
         return y
 
     def normalizing_wrapper(self, normalizing_fun, df, t):
-- 
2.43.0


From b986c6ca49c2aae8827e59c782f28bfbb704f38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 16/51] fix: HoltWinters residual quantiles are not lost by a
 column re-labelling

---
 pyforecaster/forecasting_models/holtwinters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 56508e3..60c9461 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -199,7 +199,7 @@ class HoltWinters(ScenarioGenerator):
         self.coeffs_output = np.linalg.pinv(x[:-self.n_sa,:].T @ x[:-self.n_sa,:]) @ (x[:-self.n_sa,:].T @ resid)
         self.y_hat_tr = pd.DataFrame(y_hat_hw + x[:-self.n_sa, :] @ self.coeffs_output,
                                         index=x_pd.index[:-self.n_sa])
-        resid = hw_target - self.y_hat_tr
+        resid = hw_target - self.y_hat_tr.values
 
         self.y_tr = pd.DataFrame(hw_target, index=x_pd.index[:-self.n_sa])
 
-- 
2.43.0


From 4c81d4fd42077ab7fafc2cc0d8a72572e6baa0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 17/51] fix: HoltWintersMulti takes the residual quantiles of
 each step from its model

---
 pyforecaster/forecasting_models/holtwinters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 60c9461..16c386c 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -437,7 +437,7 @@ class HoltWintersMulti(ScenarioGenerator):
             m.fit(x_pd, y_pd)
             selection = np.arange(k, m.err_distr.shape[0])
             err_distr[selection, :] = m.err_distr[selection, :]
-            k = m.err_distr.shape[1]
+            k = m.err_distr.shape[0]
 
         # reinit HW
         # concat past inputs and last row of target
-- 
2.43.0


From 3705ad1402e417f236f5a265e2ecaa8ef8681b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 18/51] fix: probability masses are fractions of the quantiles
 actually predicted

---
 pyforecaster/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 842ac4f..4b2ddd5 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -269,7 +269,7 @@ class ScenarioGenerator(BaseEstimator):
         pmf = np.zeros((quantiles.shape[0], quantiles.shape[1], len(discrete_prob_space)-1))
         for i in range(quantiles.shape[0]):
             for j in range(quantiles.shape[1]):
-                pmf[i, j, :] = np.histogram(quantiles[i, j, :], bins=discrete_prob_space)[0]/len(self.q_vect)
+                pmf[i, j, :] = np.histogram(quantiles[i, j, :], bins=discrete_prob_space)[0]/quantiles.shape[2]
         return pmf
 
     def predict_scenarios(self, x, n_scen=None, random_state=None, **predict_q_kwargs):
-- 
2.43.0


From 7e55d751e4bf9bfae0383acfeb1d8f817148d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 19/51] fix: HoltWintersMulti labels its quantile table

---
 pyforecaster/forecasting_models/holtwinters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 16c386c..573aed3 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -442,6 +442,7 @@ class HoltWintersMulti(ScenarioGenerator):
         # reinit HW
         # concat past inputs and last row of target
         self.reinit(x_pd[self.target_name].values)
+        self.target_cols = ['{}_{}'.format(self.target_name, t) for t in np.arange(self.n_sa)]
         self.err_distr = err_distr
 
         return self
-- 
2.43.0


From f54b75ae9fd3f5cd3a7c990b9e2c104c1cdc2fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 20/51] fix: QRF quantiles when the multi-step model has a
 single target

---
 pyforecaster/forecasting_models/randomforests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 76876df..cb92582 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -171,7 +171,8 @@ class QRF(ScenarioGenerator):
         if len(preds.shape) == 1:
             preds = np.expand_dims(preds, 1)
         if len(preds.shape) == 2:
-            preds = np.expand_dims(preds, 1)
+            # a single target has no target dimension, otherwise it's the quantile dimension which is missing
+            preds = np.expand_dims(preds, 2 if self.n_multistep == 1 else 1)
         else:
             preds = np.swapaxes(preds, 1, 2)
         return preds
-- 
2.43.0


From 47748ee0e96111596a07795a31bc9a8e01db2cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:53 +0000
Subject: [PATCH 21/51] fix: HoltWinters forecasts use the trend smoothing
 factor they were fitted with

---
 pyforecaster/forecasting_models/holtwinters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 573aed3..12f5245 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -223,7 +223,7 @@ class HoltWinters(ScenarioGenerator):
         hw_input = y_past
 
         # predict the HW
-        y_hat_hw, a, b, s1, s2 = self._run(hw_input.ravel(), self.alpha, 0, self.gamma_1, self.gamma_2)
+        y_hat_hw, a, b, s1, s2 = self._run(hw_input.ravel(), self.alpha, self.beta, self.gamma_1, self.gamma_2)
 
         # set the states (it is thought that the forecaster is called in sequence on ordinate samples)
         self.a = a
-- 
2.43.0


From ea11cb9d01ba608ef9908e4392c5cf90b64bd480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 22/51] fix: sequential Holt-Winters tuning works with more
 than one trial

---
 pyforecaster/forecasting_models/holtwinters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 12f5245..b2d4853 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -29,7 +29,7 @@ def hankel(x, n, generate_me=None):
 
 def fit_sample(pars_dict,model_class, model_init_kwargs, x, return_model=False):
     targets_names = model_init_kwargs['targets_names'] if 'targets_names' in model_init_kwargs.keys() else None
-    model_init_kwargs.update(pars_dict)
+    model_init_kwargs = {**model_init_kwargs, **pars_dict}
     model = model_class(**model_init_kwargs)
     if targets_names is not None and model_class.__name__ not in ["HoltWintersMulti", "FK_multi"]:
         subscores = []
-- 
2.43.0


From a1df9102e67d4de9128cb7fe285e75fda4064955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 23/51] fix: scoring does not relabel the caller's forecast
 table

---
 pyforecaster/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/metrics.py b/pyforecaster/metrics.py
index 999cb54..d7499dd 100644
--- a/pyforecaster/metrics.py
+++ b/pyforecaster/metrics.py
@@ -145,7 +145,7 @@ def summary_score(x, t, score=rmse, agg_index=None):
             if not isinstance(t, pd.DataFrame):
                 t = pd.DataFrame(t, index=x.index)
         elif isinstance(x, pd.DataFrame) and isinstance(t, pd.DataFrame):
-            x.columns = t.columns
+            x = x.set_axis(t.columns, axis=1)
         elif isinstance(x, pd.DataFrame):
             t = pd.DataFrame(t, index=x.index, columns=x.columns)
         elif isinstance(t, pd.DataFrame):
-- 
2.43.0


From 22b6852fe26c2e39de065e8067d489b209d0e331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 24/51] fix: reconciled forecasts keep their own series label
 whatever the column order

---
 pyforecaster/reconciliation/reconciliation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index a6b2eb9..11a6f51 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -318,8 +318,9 @@ class HierarchicalReconciliation:
         else:
             raise NotImplementedError('method {} not implemented. Chose among minT, dummy, bayes'.format(self.method))
         y_rec = y_rec.T
-        y_rec.columns = y_hat.columns
-        return y_rec
+        # rows of the summation matrix follow ordered_cols, not the order of the passed series
+        y_rec.columns = self.ordered_cols
+        return y_rec[y_hat.columns]
 
     def get_summation_matrix(self, y, hierarchy):
         self.bottom_series = [c for c in y.columns if c not in hierarchy.keys()]
-- 
2.43.0


From bd8bf69828bb2268a17d7022f4e895e5905171c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 25/51] fix: bayes reconciliation pairs aggregated series with
 their own rows

---
 pyforecaster/reconciliation/reconciliation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 11a6f51..8def414 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -295,7 +295,7 @@ class HierarchicalReconciliation:
         elif self.method == 'bayes':
             cov_b, precision_b = self.estimate_covariance(err_b.values, method=cov_method)
             if err_u.shape[1] < 2:
-                cov_u = np.std(err_u)
+                cov_u = np.atleast_2d(np.var(err_u.values))
             else:
                 cov_u, precision_u = self.estimate_covariance(err_u.values, method=cov_method)
             self.g_matrix = cov_b @ self.a_matrix.T @ np.linalg.inv(cov_u + self.a_matrix @ cov_b @ self.a_matrix.T)
@@ -313,7 +313,7 @@ class HierarchicalReconciliation:
         elif self.method == 'bayes':
             y_b = y_hat.loc[:, self.bottom_series]
             y_u = y_hat.loc[:, self.aggregated_series]
-            y_b_rec = y_b.T + self.g_matrix @ (y_u.T - (self.a_matrix @ y_b.T))
+            y_b_rec = y_b.T + self.g_matrix @ (y_u.T.values - self.a_matrix @ y_b.T.values)
             y_rec = self.s_matrix @ y_b_rec
         else:
             raise NotImplementedError('method {} not implemented. Chose among minT, dummy, bayes'.format(self.method))
@@ -330,7 +330,8 @@ class HierarchicalReconciliation:
         self.n_u = n_all - self.n_b
         I = np.eye(self.n_b)
         self.s_matrix = np.vstack([self.a_matrix, I])
-        self.aggregated_series = [c for c in y.columns if c not in self.bottom_series]
+        # same order as the rows of the summation matrix
+        self.aggregated_series = list(self.hierarchy_flatten.keys())
 
     @staticmethod
     def estimate_covariance(x, method):
-- 
2.43.0


From 6cfdced037236e9247f55c5840a68ca2af304e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 26/51] fix: reconciled scenarios of new data use the hours of
 the new rows

---
 pyforecaster/reconciliation/reconciliation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 8def414..ed43d43 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -249,15 +249,15 @@ class HierarchicalReconciliation:
                                                     droplevel(1, 1)) for t_name in target_names}, axis=1)
             y_tilde = y_tilde.swaplevel(0, 1, axis=1).sort_index(axis=1)
 
+        y_base = y_hat if method == 'vanilla' else y_tilde
+        errs = self.errs_hat if method == 'vanilla' else self.errs_tilde
         scens = []
         for h in range(24):
-            h_idx_tr = self.errs_tilde.index.hour == h
-            if method == 'vanilla':
-                y_hat_h = y_hat.loc[h_idx_tr]
-            elif method == 'reconciled':
-                y_hat_h = y_tilde.loc[h_idx_tr]
+            y_hat_h = y_base.loc[y_base.index.hour == h]
             n_times = y_hat_h.shape[0]
-            scens.append(pd.concat({s: y_hat_h + self.errs_tilde.loc[h_idx_tr]
+            if n_times == 0:
+                continue
+            scens.append(pd.concat({s: y_hat_h + errs.loc[errs.index.hour == h]
                       .sample(n_times, replace=True)
                       .reset_index(drop=True)
                       .set_index(y_hat_h.index) for s in range(self.n_scenarios)},axis=1,names=['scenario', 'series', 'step'])\
-- 
2.43.0


From 3cd8dd14ef8cc9ec3119915dd8c2c676d0608a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 27/51] fix: process-based parallel mapping covers all the
 pieces and keeps the labels in order

---
 pyforecaster/big_data_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index 5f835ff..2f9f564 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -83,17 +83,17 @@ def fdf_parallel(f, df:Union[pd.DataFrame, list], n_splits=None, axis=0, use_ray
         if axis==0:
             df_shape_0 = sum([x.shape[0] for x in dfs])
             df_shape_1 = dfs[0].shape[1]
-            df_columns = np.unique(dfs[0].columns)
+            df_columns = dfs[0].columns
         else:
             df_shape_0 = dfs[0].shape[0]
             df_shape_1 = sum([x.shape[1] for x in dfs])
-            df_columns = np.unique([x.columns for x in dfs])
+            df_columns = dfs[0].columns.append([x.columns for x in dfs[1:]])
 
         df_shape = (df_shape_0, df_shape_1)
 
-        df_indexes = np.hstack([x.index.ravel() for x in dfs]) if axis==0 else dfs[0].index
+        df_indexes = dfs[0].index.append([x.index for x in dfs[1:]]) if axis==0 else dfs[0].index
 
-        res = mapper(f, [df.values for df in [dfs[0]]])
+        res = mapper(f, [df.values for df in dfs])
         res = np.vstack(res) if axis == 0 else np.hstack(res)
 
         if res.shape == df_shape:
-- 
2.43.0


From 6fd2dc6354f25491f5871167a0edee192cbb5e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 28/51] fix: process-based memory reduction keeps integers of
 mixed tables exact

---
 pyforecaster/big_data_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index 2f9f564..11e1760 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -176,7 +176,9 @@ def reduce_mem_usage(df, parallel=True, logger=None, use_ray=True):
         if use_ray:
             df = fdf_parallel(reduce_mem_usage_df, df, axis=1, use_ray=use_ray)
         else:
-            df = fdf_parallel(reduce_mem_usage_np, df, axis=1, use_ray=use_ray)
+            # the pieces are tables: the array of a mixed table has a single dtype, which does not keep integers exact
+            dfs = [d for d in array_split(df, cpu_count(), axis=1) if d.shape[1] > 0]
+            df = pd.concat(mapper(reduce_mem_usage_df, dfs), axis=1)
     else:
         for col in tqdm(df.columns):
             df[col] = reduce_mem_usage_series(df[col])
-- 
2.43.0


From 731c28e02a77e8d0d8a4812e4ffab9bfa2ba1130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 29/51] fix: the Kalman update applies the covariance
 correction once

---
 pyforecaster/utilities.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyforecaster/utilities.py b/pyforecaster/utilities.py
index 27050c6..4e17fa5 100644
--- a/pyforecaster/utilities.py
+++ b/pyforecaster/utilities.py
@@ -36,7 +36,6 @@ def kalman_update(x, P, y, H, R):
     S = np.dot(H, np.dot(P, H.T)) + R
     K = np.dot(P, np.dot(H.T, np.linalg.pinv(S)))
     x = x + np.dot(K, (y - np.dot(H , x)))
-    P = P - np.dot(K,np.dot(H, P))
     I_KH = np.eye(K.shape[0]) - np.dot(K, H)
     P = np.dot(I_KH,np.dot(P,I_KH.T)) + np.dot(K, np.dot(R, K.T))
     return x, P
-- 
2.43.0


From 16229265387ef32b5bf8aac99232b27ff5abd205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:41 +0000
Subject: [PATCH 30/51] fix: scenario trees keep the probability of scenarios
 with coinciding values

---
 pyforecaster/scenred.py | 64 +++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 35 deletions(-)

diff --git a/pyforecaster/scenred.py b/pyforecaster/scenred.py
index 3e9f4b3..97f1626 100644
--- a/pyforecaster/scenred.py
+++ b/pyforecaster/scenred.py
@@ -291,57 +291,51 @@ def _get_network(S_s, P_s):
     assert np.sum(P_s[0, :] > 0) == 1, 'there is more than one node at root with P>0. Something wrong, ' \
                                        'most likely some observations at first step are equal down to epsilon'
 
+    n_scen = P_s.shape[1]
     new_node = 0
     attributes_t = []
     attributes_p = []
     attributes_v = []
     attributes_t.append(0)
-    attributes_p.append(1)
+    attributes_p.append(1.0)
     attributes_v.append(S_s[0, P_s[0, :] > 0, :].ravel())
     edges_start = []
     edges_end = []
-    times, values = [], []
-    k = 0
+    # node of each scenario at the previous time. All the scenarios start from the root node
+    nodes_past = np.zeros(n_scen, dtype=np.int64)
     for t in range(1, P_s.shape[0]):
-        for s in range(P_s.shape[1]):
-            # span all the times, starting from second point (the root node is already defined)
-            # consider current point mu, and its previous point in its scenario
-            mu = S_s[t, s, :]
-            p = P_s[t, s]
-
+        # span all the times, starting from second point (the root node is already defined)
+        nodes_t = -np.ones(n_scen, dtype=np.int64)
+        for s in range(n_scen):
             # if probability of current point is zero, just go on
-            if p == 0:
-                continue
-            mu_past = S_s[t - 1, s, :]
-            # get current times in the tree
-            values_t = [v for v, time in zip(values, times) if time == t]
-            # check if values of current point s are present in the tree at current time
-            equals = [el for el in [np.array_equal(mu, a) for a in values_t] if el]
-
-            if len(equals)>0:
+            if P_s[t, s] == 0:
                 continue
+            # scenarios share a node if they have the same past and the same values: the node collects their probability
+            for r in range(s):
+                if nodes_t[r] >= 0 and nodes_past[r] == nodes_past[s] and np.array_equal(S_s[t, s, :], S_s[t, r, :]):
+                    nodes_t[s] = nodes_t[r]
+                    attributes_p[nodes_t[r]] += P_s[t, s]
+                    break
             else:
-                values.append(mu)
-                times.append(t)
-                for x in range(len(attributes_t)):
-                    y_t = attributes_t[x]
-                    y_v = attributes_v[x]
-                    if y_t == t - 1 and np.array_equal(y_v, mu_past):
-                        parent_node = x
-                        break
-                else:
-                    raise ValueError('The tree does not have a root! It is likely that you did required more than one node as first node')
                 # create the node and add an edge from current point to its parent
                 new_node += 1
+                nodes_t[s] = new_node
                 attributes_t.append(t)
-                attributes_p.append(p)
-                attributes_v.append(mu)
-
-                edges_start.append(parent_node)
+                attributes_p.append(P_s[t, s])
+                attributes_v.append(S_s[t, s, :])
+                edges_start.append(nodes_past[s])
                 edges_end.append(new_node)
-                #g.add_node(new_node, t=t, p=p, v=mu, label=new_node)
-                #g.add_edge(parent_node[0], new_node)
-                # print('node %i added, with values' % (new_node), mu)
+        # scenarios which have been merged at this time follow the node they have been merged with
+        for s in range(n_scen):
+            if nodes_t[s] >= 0:
+                continue
+            for r in range(n_scen):
+                if P_s[t, r] > 0 and nodes_past[r] == nodes_past[s] and np.array_equal(S_s[t, s, :], S_s[t, r, :]):
+                    nodes_t[s] = nodes_t[r]
+                    break
+            else:
+                raise ValueError('The tree does not have a root! It is likely that you did required more than one node as first node')
+        nodes_past = nodes_t
     return edges_start, edges_end, attributes_t, attributes_p, attributes_v
 
 
-- 
2.43.0


From 799e80e7484dfc7053eeefa0aaffc1e899ac38ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:41 +0000
Subject: [PATCH 31/51] fix: scenario reduction goes on merging scenarios with
 the same past

---
 pyforecaster/scenred.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/scenred.py b/pyforecaster/scenred.py
index 97f1626..23e04b0 100644
--- a/pyforecaster/scenred.py
+++ b/pyforecaster/scenred.py
@@ -161,7 +161,8 @@ def scenred(samples_0, tol=10, metric='cityblock', nodes=None, logger=None):
             # update the differential accuracy
             if not Tol[i] == infty:
                 delta_p = delta_p + dp_min
-            delta_rel = delta_p / delta_max
+            # coinciding scenarios are merged at no cost
+            delta_rel = delta_p / delta_max if delta_p > 0 else 0
 
         if i > 0:
             # Update available scenarios in the previous timestep
-- 
2.43.0


From 40d9d706fe01e3b9e3981bdaef033242b8f48e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 32/51] fix: scenario reduction honours one requested node per
 step and a single step

---
 pyforecaster/scenred.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/scenred.py b/pyforecaster/scenred.py
index 23e04b0..b780b8f 100644
--- a/pyforecaster/scenred.py
+++ b/pyforecaster/scenred.py
@@ -63,7 +63,8 @@ def scenred(samples_0, tol=10, metric='cityblock', nodes=None, logger=None):
     n_steps, n_scen, n_var = samples.shape
     default_nodes = np.ones((n_steps, 1))
 
-    if nodes is None:
+    reduce_by_tol = nodes is None
+    if reduce_by_tol:
         nodes = default_nodes
 
     # pars kwargs
@@ -88,7 +89,7 @@ def scenred(samples_0, tol=10, metric='cityblock', nodes=None, logger=None):
     infty = 1e12
 
     # generate the tolerance vector
-    if np.all(pars['nodes'].ravel() == default_nodes.ravel()):
+    if reduce_by_tol:
         # Tol = np.tile(pars['tol'], (1, T))[0]
         Tol = np.fliplr(pars['tol'] / (1.5 ** (n_steps - np.arange(n_steps).reshape(1, -1) + 1))).ravel()
         Tol[0] = infty
@@ -344,7 +345,9 @@ def get_network(S_s, P_s):
     edges_start, edges_end, attributes_t, attributes_p, attributes_v = _get_network(S_s, P_s)
     attributes = {i: {'t': t, 'p': p, 'v': v, 'label': i} for i, (t, p, v) in enumerate(zip(attributes_t, attributes_p, attributes_v))}
     edges = [(s, e) for s, e in zip(edges_start, edges_end)]
-    g = nx.DiGraph(edges)
+    g = nx.DiGraph()
+    g.add_nodes_from(attributes.keys())
+    g.add_edges_from(edges)
     nx.set_node_attributes(g, attributes)
     return g
 
-- 
2.43.0


From c0c6cef0084e6ab529c62bddc78b9509b9f3b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 33/51] fix: trees with their own nodes per step can be built
 from few scenarios

---
 pyforecaster/tree_builders.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index ffe059b..0dad3b9 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -65,14 +65,13 @@ class ScenarioTree:
         return tree, tree_scens, tree_vals
 
     def gen_init_tree(self, scens, nodes_at_step=None):
+        if nodes_at_step is None:
+            nodes_at_step = self.nodes_at_step
         if nodes_at_step is None:
             geometric_steps = np.array([2**t for t in range(int(np.log(scens.shape[1])/np.log(2)))][2:])
             geometric_progression = np.floor(np.logspace(-1, np.log(len(geometric_steps))/np.log(10), scens.shape[0])).astype(int)
             reverse_geom_progression = np.max(geometric_progression) - geometric_progression[::-1]
-            geometric_nodes = geometric_steps[np.minimum(reverse_geom_progression, len(geometric_steps)-1)]
-
-            nodes_at_step = self.nodes_at_step if self.nodes_at_step is not None else \
-                geometric_nodes
+            nodes_at_step = geometric_steps[np.minimum(reverse_geom_progression, len(geometric_steps)-1)]
 
         if len(nodes_at_step) == scens.shape[1]-1:
             nodes_at_step = np.hstack([1, nodes_at_step])
-- 
2.43.0


From 61316f3332aa82c557cdb1a59ac8eb247dba060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 34/51] fix: the initial tree node is added by number of steps,
 not of scenarios

---
 pyforecaster/tree_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index 0dad3b9..ab36e3f 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -73,7 +73,7 @@ class ScenarioTree:
             reverse_geom_progression = np.max(geometric_progression) - geometric_progression[::-1]
             nodes_at_step = geometric_steps[np.minimum(reverse_geom_progression, len(geometric_steps)-1)]
 
-        if len(nodes_at_step) == scens.shape[1]-1:
+        if len(nodes_at_step) == scens.shape[0]-1:
             nodes_at_step = np.hstack([1, nodes_at_step])
             self.logger.info('seems like you have one step more in your scenarios than what specified in nodes_at_step'
                              'I assume you are passing an additional step to consider initial variance, I am adding an '
-- 
2.43.0


From c6609762b19f50f9d39f3db3225a8dac35de4cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 35/51] fix: quantile tree nodes take the quantiles of their
 own step

---
 pyforecaster/tree_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index ab36e3f..dec96f0 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -48,7 +48,7 @@ class ScenarioTree:
                     children = list(tree.successors(j))
                     qs = np.quantile(scens[t+1, filters[j]], np.linspace(0, 1, len(children) + 1))
                     bins.update({c: [qs[i], qs[i+1]] for i, c in enumerate(children)})
-                    vals_j = np.quantile(scens[t, filters[j]], np.linspace(0, 1, len(children) + 2)[1:-1])
+                    vals_j = np.quantile(scens[t+1, filters[j]], np.linspace(0, 1, len(children) + 2)[1:-1])
                     for c, v in zip(children, vals_j):
                         vals[c] = v
                         filters[c] = filters[j][(scens[t+1, filters[j]] > bins[c][0] - 1e-6) &
-- 
2.43.0


From bea63902aa32b06e565e3aeb2312244ee57bda68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:18 +0000
Subject: [PATCH 36/51] fix: copula samples with a single scenario

---
 pyforecaster/copula.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index 08d08de..fefa43a 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -90,12 +90,8 @@ class HourlyGaussianCopula(GaussianCopula):
                 continue
             else:
                 mvr_samples = mvr.rvs((np.sum(hour_filt), n_scen), random_state=random_state)
-                # if sum(hour_filt) == 1, mvr_sample has lower dimensionality
-                if np.sum(hour_filt) == 1:
-                    mvr_samples = np.expand_dims(mvr_samples, 0)
-                # if we're predicting only one target, mvr.rvs has lower dimensionality
-                if len(mvr_samples.shape) == 2:
-                    mvr_samples = np.expand_dims(mvr_samples, -1)
+                # rvs squeezes the dimensions with one row, one scenario or one target
+                mvr_samples = np.reshape(mvr_samples, (np.sum(hour_filt), n_scen, self.dim))
                 mvr_samples = np.swapaxes(mvr_samples, 1, 2)
                 copula_samples[hour_filt, :, :] = norm.cdf(mvr_samples)
         return copula_samples
-- 
2.43.0


From 62910dd3549cdb653489cd8e57537e13fdab1311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:18 +0000
Subject: [PATCH 37/51] fix: the graphical lasso penalty is tuned on the hour
 with most observations

---
 pyforecaster/copula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index fefa43a..e3f03ab 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -39,7 +39,7 @@ class HourlyGaussianCopula(GaussianCopula):
         self.logger.info('estimating gaussian copula, conditional on day-hour')
         if self.cov_est_method == 'glasso_cv':
             # optimize alpha in CV on the hour with most observations only
-            hour_filt = y.index.hour == y.index.hour.value_counts().argmax()
+            hour_filt = y.index.hour == y.index.hour.value_counts().idxmax()
             x_h = y.loc[hour_filt, :]
             glcv = GraphicalLassoCV().fit(x_h)
             alpha_glasso = glcv.alpha_
-- 
2.43.0


From 898051e065e91f1c237d6487c01a8ccf4e7f3dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:18 +0000
Subject: [PATCH 38/51] fix: the shrunk copula matrix has a unit diagonal, so
 that samples are uniform

---
 pyforecaster/copula.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index e3f03ab..4e7cb92 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -52,7 +52,8 @@ class HourlyGaussianCopula(GaussianCopula):
                 est_cov = np.corrcoef(x_h.T) + np.eye(self.dim)*1e-6
             elif self.cov_est_method == 'shrunk':
                 sh = ShrunkCovariance().fit(x_h)
-                std = np.std(x_h.values, axis=0)
+                # the variances of the shrunk covariance are not those of the samples
+                std = np.sqrt(np.diag(sh.covariance_))
                 est_cov = sh.covariance_ / np.outer(std, std)
             elif self.cov_est_method in ['glasso', 'glasso_cv']:
                 self.logger.info('alpha glasso: {}'.format(alpha_glasso))
-- 
2.43.0


From d4fa9f7fd7322585b2de0873750a1a34084b327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 39/51] fix: scenarios of forecasters with an additional
 initial node

---
 pyforecaster/forecaster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 4b2ddd5..15801be 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -277,7 +277,8 @@ class ScenarioGenerator(BaseEstimator):
         # retrieve quantiles from child class
         quantiles = self.predict_quantiles(x, dataframe=False, **predict_q_kwargs)
         scenarios = self.scengen.predict_scenarios(quantiles, n_scen=n_scen, x=x, random_state=random_state)
-        q_from_scens = np.rollaxis(np.quantile(scenarios, self.q_vect, axis=-1), 0, 3)
+        # an additional node comes before the forecasted steps
+        q_from_scens = np.rollaxis(np.quantile(scenarios[:, -quantiles.shape[1]:, :], self.q_vect, axis=-1), 0, 3)
         mean_abs_dev = np.abs(q_from_scens - quantiles).mean(axis=0).mean(axis=0)
         self.logger.info('mean abs deviations of re-estimated quantiles from scenarios: {}'.format(mean_abs_dev))
         return scenarios
-- 
2.43.0


From d2bb43b8e142be82900605e2f2f70aab00c58731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 40/51] fix: causal layers with identity or inverse activations
 are inverted with the right map

---
 pyforecaster/forecasting_models/neural_models/layers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/layers.py b/pyforecaster/forecasting_models/neural_models/layers.py
index 14b7e46..079018b 100644
--- a/pyforecaster/forecasting_models/neural_models/layers.py
+++ b/pyforecaster/forecasting_models/neural_models/layers.py
@@ -244,8 +244,12 @@ class CausalInvertibleLayer(nn.Module):
             return jnp.where(y >= 0, y, y / self.negative_slope)
         elif name == "softplus":
             return inverse_softplus(jnp.maximum(1e-6, y))
-        elif name == "invcondiff" or name == "invcondiff_inverse" or name == "identity":
+        elif name == "invcondiff":
             return invcondiff_inverse(y)
+        elif name == "invcondiff_inverse":
+            return invcondiff(y)
+        elif name == "identity":
+            return y
         elif name == "linloglin":
             return linloglin_inverse(y)
         else:
-- 
2.43.0


From 9b4fbb41d33efb1d87b4fd169d91525179b78294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 41/51] fix: prediction does not invent codes for columns that
 were not categorical at fit

---
 pyforecaster/forecaster.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 15801be..a066d8b 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -34,7 +34,10 @@ def encode_categorical(func):
 
         # Check if x contains columns that are not numbers and encode them
         for column in x.select_dtypes(include=['object', 'category']).columns:
-            if column not in self._le:
+            if column not in self._le and func.__name__ != 'fit':
+                # Not categorical at fit time: a code learnt here would mean nothing to the fitted model
+                continue
+            elif column not in self._le:
                 # Create and fit a new encoder for the column if it's the first encounter
                 le = LabelEncoder()
                 x[column] = le.fit_transform(x[column].astype(str))
-- 
2.43.0


From 9c1a43da9f175cb963a20af54c4ea75fbc3f39bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:00 +0000
Subject: [PATCH 42/51] fix: random Fourier feature settings are kept as
 parameters and redrawn at each fit

---
 .../random_fourier_features.py                | 44 ++++++++++++++-----
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 006a60c..5b6655e 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -203,11 +203,21 @@ class Base:
         Notes:
             If `W` is None then the appropriate matrix will be set just before the training.
         """
-        self.dim = dim_kernel
-        self.s_k = std_kernel
-        self.mat = get_matrix_generator(rand_type, std_kernel, dim_kernel)
+        self.rand_type  = rand_type
+        self.dim_kernel = dim_kernel
+        self.std_kernel = std_kernel
         self.W   = W
         self.b   = b
+        self.reset_weight()
+
+    def reset_weight(self):
+        """
+        Forget the generated random matrix: the next one is drawn with the current hyper parameters,
+        unless it was given by the user.
+        """
+        self.mat = get_matrix_generator(self.rand_type, self.std_kernel, self.dim_kernel)
+        self.W_  = self.W
+        self.b_  = self.b
 
     def conv(self, x, index=None):
         """
@@ -224,8 +234,8 @@ class Base:
             Also, computation of `ts` is equivarent with ts = X @ W, however, for reducing memory
             consumption, split X to smaller matrices and concatenate after multiplication wit W.
         """
-        W = self.W if index is None else self.W[index]
-        b = self.b if index is None else self.b[index]
+        W = self.W_ if index is None else self.W_[index]
+        b = self.b_ if index is None else self.b_[index]
         return pd.DataFrame(np.cos(x.values @ W + b), index=x.index)
 
     def set_weight(self, dim_in):
@@ -240,14 +250,14 @@ class Base:
             a list/tuple of integers, then generate multiple random matrixes.
         """
         # Generate matrix W.
-        if   self.W is not None         : pass
-        elif hasattr(dim_in, "__iter__"): self.W = tuple([self.mat(d) for d in dim_in])
-        else                            : self.W = self.mat(dim_in)
+        if   self.W_ is not None        : pass
+        elif hasattr(dim_in, "__iter__"): self.W_ = tuple([self.mat(d) for d in dim_in])
+        else                            : self.W_ = self.mat(dim_in)
 
         # Generate vector b.
-        if   self.b is not None         : pass
-        elif hasattr(dim_in, "__iter__"): self.b = tuple([np.random.uniform(0, 2*np.pi, size=self.W.shape[1]) for _ in dim_in])
-        else                            : self.b = np.random.uniform(0, 2*np.pi, size=self.W.shape[1])
+        if   self.b_ is not None        : pass
+        elif hasattr(dim_in, "__iter__"): self.b_ = tuple([np.random.uniform(0, 2*np.pi, size=self.W_.shape[1]) for _ in dim_in])
+        else                            : self.b_ = np.random.uniform(0, 2*np.pi, size=self.W_.shape[1])
 
 
 
@@ -271,6 +281,7 @@ class RandomFFRegressor(Base):
             args       (dict)      : Extra arguments. This arguments will be passed to the constructor of sklearn's LinearRegression model.
         """
         Base.__init__(self, rand_type, dim_kernel, std_kernel, W, b)
+        self.base_model = reg_fun
         self.reg = reg_fun()
         self.target_cols = None
 
@@ -287,7 +298,9 @@ class RandomFFRegressor(Base):
         Returns:
             (rfflearn.cpu.Regression): Fitted estimator.
         """
+        self.reset_weight()
         self.set_weight(x.shape[1])
+        self.reg = self.base_model()
         self.reg.fit(self.conv(x), y, **args)
         self.target_cols = y.columns
         return self
@@ -367,7 +380,12 @@ class AdditiveRFFRegression(ScenarioGenerator):
     def __init__(self, n_models, dim_kernel=16, std_kernel=0.1, W=None, b=None, q_vect=None, nodes_at_step=None,
                  val_ratio=None, logger=None, n_scen_fit=100, additional_node=False, base_model=LinearRegression, **scengen_kwgs):
         self.n_models = n_models
-        self.models = [RandomFFRegressor("rff", base_model, dim_kernel, std_kernel, W, b) for _ in range(n_models)]
+        self.dim_kernel = dim_kernel
+        self.std_kernel = std_kernel
+        self.W = W
+        self.b = b
+        self.base_model = base_model
+        self.models = []
         ScenarioGenerator.__init__(self, q_vect, nodes_at_step=nodes_at_step, val_ratio=val_ratio, logger=logger,
                                    n_scen_fit=n_scen_fit, additional_node=additional_node, **scengen_kwgs)
         self.scaler = None
@@ -378,6 +396,8 @@ class AdditiveRFFRegression(ScenarioGenerator):
         x, y, x_val, y_val = self.train_val_split(x, y)
         x = pd.DataFrame(self.scaler.transform(x), index=x.index)
         err = y.copy()
+        self.models = [RandomFFRegressor("rff", self.base_model, self.dim_kernel, self.std_kernel, self.W, self.b)
+                       for _ in range(self.n_models)]
         for m in self.models:
             m.fit(x, err, **args)
             y_hat = m.predict(x)
-- 
2.43.0


From 2ad4fc513b582957f18b715a6c687cf0e263751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:00 +0000
Subject: [PATCH 43/51] fix: quantile levels changed with set_params reach the
 scenario generator

---
 pyforecaster/forecaster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index a066d8b..c194716 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -220,6 +220,8 @@ class ScenarioGenerator(BaseEstimator):
         x, y = self._maybe_subsample_for_scengen(x, y)
         preds = self.predict(x)
         errs = pd.DataFrame(y.values-preds.values, index=x.index)
+        # the quantile levels may have been changed by set_params
+        self.scengen.q_vect = self.q_vect
         self.scengen.fit(errs, x, n_scen=self.n_scen_fit)
         self.err_distr = self._estimate_err_distr(errs, x)
 
-- 
2.43.0


From de5ae3c702a27575826062656b65b3737cd77106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 44/51] fix: Holt-Winters models start from scratch at each fit

---
 pyforecaster/forecasting_models/holtwinters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index b2d4853..3e0d033 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -188,6 +188,8 @@ class HoltWinters(ScenarioGenerator):
         y = x_pd[self.target_name].values
         x = x_pd.values
 
+        # the states of a previous fit refer to other data
+        self.a, self.b, self.s1, self.s2 = None, None, None, None
         y_hat_hw, self.a, self.b, self.s1, self.s2 = self._run(y)
 
         hw_target = hankel(y[1:], self.n_sa)
@@ -429,7 +431,9 @@ class HoltWintersMulti(ScenarioGenerator):
         if self.optimize_hyperpars:
             pars_opt = tune_hyperpars(x_pd, HoltWintersMulti, hyperpars={'fake':[0, 1]}, n_trials=1, return_model=False, parallel=False, model_init_kwargs=self.init_pars)
             self.set_params(**pars_opt)
-            self.reinit_pars()
+
+        # sub-models follow the current parameters, whatever they were in a previous fit
+        self.reinit_pars()
 
         err_distr = np.zeros((self.n_sa, len(self.q_vect)))
         k = 0
-- 
2.43.0


From 28cf2f786255aa957f40c0fbf951e23ec15e30ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:00 +0000
Subject: [PATCH 45/51] fix: Fourier models start from scratch at each fit

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index c1ce966..b3f60af 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -133,6 +133,9 @@ class StatefulForecaster(ScenarioGenerator):
         if self.optimize_hyperpars:
             self.tune_hyperpars(x_pd)
 
+        # a fit does not start from the states of a previous one
+        self.reinit_pars()
+
         y_present = x_pd[self.target_name].values
         x = x_pd.values
 
@@ -359,6 +362,7 @@ class FK(StatefulForecaster):
         self.states['w'] = np.zeros(self.m)
         self.states['eps'] = None
         self.states['last_1sa_preds'] = 0
+        self.coeffs_t_history = []
         self.P_future = None
         self.store_basis()
 
@@ -503,8 +507,9 @@ class FK_multi(StatefulForecaster):
             pars_opt = tune_hyperpars(x_pd, FK_multi, hyperpars={'fake':[0, 1]},
                             n_trials=1, return_model=False, parallel=False, model_init_kwargs=self.init_pars)
             self.set_params(**pars_opt)
-            self.reinit_pars()
 
+        # a fit does not start from the states of a previous one
+        self.reinit_pars()
         preds, _ = self.run(x_pd, fit=True)
 
         # exclude the last n_sa, we need them to create the target
-- 
2.43.0


From 200fc38547fc1293b7735e9bacda8e210d45a269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 46/51] fix: discrete-distribution forecasts keep the request's
 row labels and the fit's sampling time

---
 pyforecaster/forecasting_models/benchmarks.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyforecaster/forecasting_models/benchmarks.py b/pyforecaster/forecasting_models/benchmarks.py
index f411510..42e3cb1 100644
--- a/pyforecaster/forecasting_models/benchmarks.py
+++ b/pyforecaster/forecasting_models/benchmarks.py
@@ -75,11 +75,12 @@ class DiscreteDistr(ScenarioGenerator):
         self.target_names = None
         self.y_distributions = None
         self.support = None
+        self.sampling_time = None
 
     def fit(self, x:pd.DataFrame, y:pd.DataFrame):
         self.n_sa = y.shape[1]
         # infer sampling time
-        sampling_time = x.index.drop_duplicates().diff().median()
+        self.sampling_time = x.index.drop_duplicates().diff().median()
 
         # retrieve support of target distribution
         support = np.unique(y.values)
@@ -87,7 +88,7 @@ class DiscreteDistr(ScenarioGenerator):
         print('support of target distribution:', support)
 
         # Create a new column for the time within a day (hours and minutes)
-        time_of_day = y.index.floor(sampling_time).time
+        time_of_day = y.index.floor(self.sampling_time).time
 
         # Group by this time of day and calculate the mean across all days
         mean_by_time_of_day = {}
@@ -112,10 +113,8 @@ class DiscreteDistr(ScenarioGenerator):
         return (self.predict_probabilities(x) * np.tile(self.support.reshape(1, -1), self.n_sa)).T.groupby(level=0).sum().T
 
     def predict_probabilities(self, x, **kwargs):
-        # infer sampling time
-        sampling_time = x.index.drop_duplicates().diff().median()
-        # Create a new column for the time within a day (hours and minutes)
-        time_of_day = pd.Series(x.index.floor(sampling_time).time)
+        # time within a day (hours and minutes), at the sampling time of the fit
+        time_of_day = pd.Series(x.index.floor(self.sampling_time).time, index=x.index)
 
         # retrieve the distribution for the time of day
         y_hat = {}
-- 
2.43.0


From 109d92dd7c5fe5ea01c5de7ec1c32ea6595f9463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:08 +0000
Subject: [PATCH 47/51] fix: several scores can be used with random-fold
 cross-validation

---
 pyforecaster/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index 0a5ffa4..a08d9ea 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -59,7 +59,7 @@ def cross_validate(x: pd.DataFrame, y: pd.DataFrame, model, cv_folds, scoring=No
         x_tr, x_te, y_tr, y_te = x.iloc[tr_idx], x.iloc[te_idx], y.iloc[tr_idx], y.iloc[te_idx]
         model.fit(x_tr, y_tr)
         y_hat = model.predict(x_te)
-        cv_results = {k:np.atleast_1d(s(model, x_te, y_te)) for k, s in scoring.items()} if isinstance(scoring, dict) else {'test_score': np.atleast_1d(scoring(model, x_te, y_te))}
+        cv_results = {'test_' + k:np.atleast_1d(s(model, x_te, y_te)) for k, s in scoring.items()} if isinstance(scoring, dict) else {'test_score': np.atleast_1d(scoring(model, x_te, y_te))}
         score_key = get_score_key(cv_results, scoring, score_key=score_key)
         score = float(np.mean(cv_results[score_key]))
 
-- 
2.43.0


From 725e9c1980e778380f971d73fa316db2a0237494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 48/51] fix: BrutalRegressor.fit forgets the learners of a
 previous fit

---
 pyforecaster/forecasting_models/random_fourier_features.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 5b6655e..9f0d7c2 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -91,6 +91,7 @@ class BrutalRegressor:
         if isinstance(x, pd.DataFrame):
             x = x.values
         self.target_cols = y.columns
+        self.best_pars = []
         if plot:
             plt.figure()
         err = y.copy().values
-- 
2.43.0


From 41970043ec3fd96a46de1656c3a59d914db616e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:53 +0000
Subject: [PATCH 49/51] fix: an additional node switched on or off by
 set_params takes effect at the next fit

---
 pyforecaster/forecaster.py          | 3 ++-
 pyforecaster/scenarios_generator.py | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index c194716..4a14522 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -220,8 +220,9 @@ class ScenarioGenerator(BaseEstimator):
         x, y = self._maybe_subsample_for_scengen(x, y)
         preds = self.predict(x)
         errs = pd.DataFrame(y.values-preds.values, index=x.index)
-        # the quantile levels may have been changed by set_params
+        # the quantile levels and the additional node may have been changed by set_params
         self.scengen.q_vect = self.q_vect
+        self.scengen.set_additional_node(self.additional_node)
         self.scengen.fit(errs, x, n_scen=self.n_scen_fit)
         self.err_distr = self._estimate_err_distr(errs, x)
 
diff --git a/pyforecaster/scenarios_generator.py b/pyforecaster/scenarios_generator.py
index 72790f7..2ae073b 100644
--- a/pyforecaster/scenarios_generator.py
+++ b/pyforecaster/scenarios_generator.py
@@ -37,6 +37,12 @@ class ScenGen:
         self.additional_node = additional_node
         self.target_cols = None
 
+    def set_additional_node(self, additional_node):
+        nodes_at_step = self.tree.nodes_at_step
+        if nodes_at_step is not None and bool(additional_node) != bool(self.additional_node):
+            self.tree.nodes_at_step = np.hstack([1, nodes_at_step]) if additional_node else nodes_at_step[1:]
+        self.additional_node = additional_node
+
     def fit(self, y: pd.DataFrame, x: pd.DataFrame = None, n_scen=100, **copula_kwargs):
         """
         Estimate a multivariate copula linking timesteps of forecasts
-- 
2.43.0


From ef141dbbd83322674ee0c568abb8e1f807d00fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 50/51] fix: tuning series forecasters keeps the other settings
 and is repeated at the next fit

---
 .../fast_adaptive_models.py                   | 19 ++++++++++-----
 .../forecasting_models/holtwinters.py         | 23 +++++++++++++++----
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index b3f60af..9c26b66 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -2,7 +2,7 @@ import numpy as np
 import pandas as pd
 from pyforecaster.forecaster import ScenarioGenerator
 from pyforecaster.utilities import kalman
-from pyforecaster.forecasting_models.holtwinters import tune_hyperpars, hankel
+from pyforecaster.forecasting_models.holtwinters import tune_hyperpars, hankel, current_init_pars
 from copy import deepcopy
 from abc import abstractmethod
 
@@ -122,9 +122,13 @@ class StatefulForecaster(ScenarioGenerator):
         return w
 
     def tune_hyperpars(self, x_pd):
-        pars_opt = tune_hyperpars(x_pd, self.__class__, hyperpars=self.hyperpar_lims, n_trials=self.optimization_budget,
-                                  return_model=False, model_init_kwargs=self.init_pars)
-        self.set_params(**pars_opt)
+        hyperpars = dict(self.hyperpar_lims)
+        if 'n_harmonics' in hyperpars:
+            hyperpars['n_harmonics'] = [1, self.m // 2]
+        pars_opt = tune_hyperpars(x_pd, self.__class__, hyperpars=hyperpars, n_trials=self.optimization_budget,
+                                  return_model=False, model_init_kwargs=current_init_pars(self))
+        # the other settings, tuning at the next fit included, stay as they are
+        self.set_params(**{k: pars_opt[k] for k in hyperpars})
         self.reinit_pars()
         return self
 
@@ -503,13 +507,16 @@ class FK_multi(StatefulForecaster):
             self.models = [self.base_predictor(**submodels_pars[i]) for i in range(self.n_predictors)]
 
     def fit(self, x_pd, y_pd=None, **kwargs):
+        submodels_pars, optimize_submodels_hyperpars = self.submodels_pars, self.optimize_submodels_hyperpars
         if self.optimize_hyperpars:
             pars_opt = tune_hyperpars(x_pd, FK_multi, hyperpars={'fake':[0, 1]},
-                            n_trials=1, return_model=False, parallel=False, model_init_kwargs=self.init_pars)
-            self.set_params(**pars_opt)
+                            n_trials=1, return_model=False, parallel=False, model_init_kwargs=current_init_pars(self))
+            # the sub-models have just been tuned; the other settings stay as they are
+            self.set_params(submodels_pars=pars_opt['submodels_pars'], optimize_submodels_hyperpars=False)
 
         # a fit does not start from the states of a previous one
         self.reinit_pars()
+        self.submodels_pars, self.optimize_submodels_hyperpars = submodels_pars, optimize_submodels_hyperpars
         preds, _ = self.run(x_pd, fit=True)
 
         # exclude the last n_sa, we need them to create the target
diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 3e0d033..ea2b3c4 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -131,6 +131,14 @@ def score_autoregressive(model, x, tr_ratio=0.7, target_name=None, n_sa=1):
 
     return np.mean((y_hat.values[:len(target), :] - target) ** 2)
 
+
+def current_init_pars(model):
+    """
+    Arguments of the constructor with the values they have now: they may have been changed by set_params
+    """
+    return {k: getattr(model, k, v) for k, v in model.init_pars.items()}
+
+
 class HoltWinters(ScenarioGenerator):
     def __init__(self, periods, target_name, targets_names=None, q_vect=None, val_ratio=None, nodes_at_step=None, optimization_budget=800, n_sa=1, constraints=None,
                  optimize_hyperpars = True, alpha=0.2, beta=0, gamma_1=0.1, gamma_2=0.1, verbose=True,
@@ -181,9 +189,11 @@ class HoltWinters(ScenarioGenerator):
 
     def fit(self, x_pd, y_pd=None, **kwargs):
         if self.optimize_hyperpars:
-            pars_opt = tune_hyperpars(x_pd, HoltWinters, hyperpars={'alpha':[0, 1], 'gamma_1':[0, 1], 'gamma_2':[0, 1]},
-                            n_trials=self.optimization_budget, return_model=False, model_init_kwargs=self.init_pars)
-            self.set_params(**pars_opt)
+            hyperpars = {'alpha':[0, 1], 'gamma_1':[0, 1], 'gamma_2':[0, 1]}
+            pars_opt = tune_hyperpars(x_pd, HoltWinters, hyperpars=hyperpars, n_trials=self.optimization_budget,
+                                      return_model=False, model_init_kwargs=current_init_pars(self))
+            # the other settings, tuning at the next fit included, stay as they are
+            self.set_params(**{k: pars_opt[k] for k in hyperpars})
 
         y = x_pd[self.target_name].values
         x = x_pd.values
@@ -428,12 +438,15 @@ class HoltWintersMulti(ScenarioGenerator):
         self.models = models
 
     def fit(self, x_pd, y_pd=None):
+        optimize_submodels_hyperpars = self.optimize_submodels_hyperpars
         if self.optimize_hyperpars:
-            pars_opt = tune_hyperpars(x_pd, HoltWintersMulti, hyperpars={'fake':[0, 1]}, n_trials=1, return_model=False, parallel=False, model_init_kwargs=self.init_pars)
-            self.set_params(**pars_opt)
+            pars_opt = tune_hyperpars(x_pd, HoltWintersMulti, hyperpars={'fake':[0, 1]}, n_trials=1, return_model=False, parallel=False, model_init_kwargs=current_init_pars(self))
+            # the sub-models have just been tuned; the other settings stay as they are
+            self.set_params(**{k: pars_opt[k] for k in ['alphas', 'gammas_1', 'gammas_2']}, optimize_submodels_hyperpars=False)
 
         # sub-models follow the current parameters, whatever they were in a previous fit
         self.reinit_pars()
+        self.optimize_submodels_hyperpars = optimize_submodels_hyperpars
 
         err_distr = np.zeros((self.n_sa, len(self.q_vect)))
         k = 0
-- 
2.43.0


From 1d2e0f024aca1408b69a4ba2374542992867c971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:35 +0000
Subject: [PATCH 51/51] fix: sub-models of FK_multi follow settings changed by
 set_params

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index 9c26b66..92b27e1 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -476,6 +476,8 @@ class FK_multi(StatefulForecaster):
 
 
     def reinit_pars(self):
+        # settings may have been changed by set_params since the constructor was called
+        self.submodels_init_pars = {k: getattr(self, k, v) for k, v in self.submodels_init_pars.items()}
         self.submodels_init_pars.update({'optimize_hyperpars': self.optimize_submodels_hyperpars,
                                          'verbose':True})
         # create models with increasing history length
-- 
2.43.0

