"""Reference model of the near-infrared reflectance and emissive part, written from their definition."""
import numpy as np

from mc import world as w

TB_MIN, STEPS, SCALE = 150.0, 2100, 10.0


class Band:
    """The band of one detector: SI wavelengths and response."""

    def __init__(self, wvl_um, resp, flux=2.0, central_um=None):
        self.wave = np.asarray(wvl_um, "f8") * 1e-6
        self.resp = np.asarray(resp, "f8")
        self.flux = flux
        self.integral = w.trapz(self.resp, self.wave)
        self.central = central_um * 1e-6 if central_um else w.central(self.wave, self.resp)
        self._memo = {}

    def direct(self, temp):
        """Normalised band radiance at one temperature."""
        key = float(temp)
        if key not in self._memo:
            self._memo[key] = w.trapz(w.planck_wl(self.wave, key) * self.resp, self.wave) / self.integral
        return self._memo[key]

    def table(self, temp):
        """The radiance of the nearest table temperature below, constant outside the table."""
        if np.isnan(temp):
            return np.nan
        idx = int(np.floor(float(temp) * SCALE + 1e-4)) - int(TB_MIN * SCALE)
        idx = min(max(idx, 0), STEPS - 1)
        return self.direct(TB_MIN + idx / SCALE)

    def radiances(self, temps):
        temps = np.asarray(temps, "f8")
        return np.array([self.table(t) for t in temps.ravel()]).reshape(temps.shape)

    def model(self, sunz, tb3, tb11, co2=None, threshold=85.0, limit=85.0):
        """(reflectance, margin, thermal radiance, measured radiance); margin: distance of the solar part from the limit."""
        sunz, tb3, tb11 = [np.asarray(x, "f8") for x in (sunz, tb3, tb11)]
        rad11, rad3 = self.radiances(tb11), self.radiances(tb3)
        corr = 1.0
        if co2 is not None:
            co2 = np.asarray(co2, "f8")
            corr = (tb11 - 0.25 * (tb11 - co2)) ** 4 / tb11 ** 4
        thermal = rad11 * self.integral * corr
        solar = self.flux * np.cos(np.deg2rad(np.clip(sunz, 0, threshold))) / np.pi
        denom = solar - thermal
        with np.errstate(all="ignore"):
            refl = (rad3 * self.integral - thermal) / denom
            refl = np.where(denom < 0.005, np.nan, refl)
            if limit is not None:
                refl = np.where((sunz < 0) | (sunz > limit), np.nan, refl)
        return refl, denom - 0.005, rad11, rad3

    def emissive(self, refl, rad11, rad3):
        part = rad11 * (1 - refl)
        return np.where(np.isnan(part), rad3, part)

    def temperature(self, rad):
        rad = np.asarray(rad, "f8")
        with np.errstate(all="ignore"):
            return w.C1 / (self.central * np.log1p(w.C2 / (rad * self.central ** 5)))
