From d996db7598618d70e171c0d89ea68cc7a029e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:52 +0000
Subject: [PATCH 01/60] fix: calibrate the first packet after a gap only once

The packet that reveals a gap is kept until the gap has been processed and was
then calibrated a second time.
---
 dedop/proc/sar/processor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index ab39662..9dcae3b 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -200,11 +200,12 @@ class L1BProcessor(BaseProcessor):
                     else:
                         monitor.progress(1)
 
-                if input_packet is not None:
-                    # apply calibrations
-                    self.cal1_algorithm(input_packet)
-                    self.cal2_algorithm(input_packet)
+                    if input_packet is not None:
+                        # apply calibrations
+                        self.cal1_algorithm(input_packet)
+                        self.cal2_algorithm(input_packet)
 
+                if input_packet is not None:
                     # check if there is a gap (or if this is the first packet & prev_time has not been set)
                     if prev_time is None or input_packet.time_sar_ku - prev_time < self.gap_threshold:
 
-- 
2.43.0


From 55f5cdec6ac3a86099b3d0fc6be5e075251490e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:52 +0000
Subject: [PATCH 02/60] fix: start each processing run from a clean state

Surfaces and packets queued by a cancelled or failed run leaked into the next
run of the same processor, and surface focusing only ever worked once.
---
 dedop/proc/sar/processor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 9dcae3b..13a1931 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -134,6 +134,11 @@ class L1BProcessor(BaseProcessor):
         self.beam_angles_trend_prev = -1
         self.surfaces_count = 0
 
+        # discard anything left over from a previous (cancelled or failed) run
+        self._surfaces = []
+        self._packets = []
+        self.surface_locations_algorithm.focus_found = False
+
         # find base name of input file
         l1a_base, _ = os.path.splitext(os.path.basename(l1a_file))
         if l1a_base.startswith('L1A'):
-- 
2.43.0


From 1b0513f262534449825429815c6f0fedb3340c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:52 +0000
Subject: [PATCH 03/60] fix: skip invalid records instead of treating them as
 the end of the input

The L1A dataset yields None for records which are invalid or outside of the
region of interest; the processor took this for the end of the file.
---
 dedop/proc/sar/processor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 13a1931..d97ba0c 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -205,7 +205,10 @@ class L1BProcessor(BaseProcessor):
                     else:
                         monitor.progress(1)
 
-                    if input_packet is not None:
+                        if input_packet is None:
+                            # invalid record, or outside of the region of interest
+                            continue
+
                         # apply calibrations
                         self.cal1_algorithm(input_packet)
                         self.cal2_algorithm(input_packet)
-- 
2.43.0


From e9a11511c05adc136a0dfa4e09c482f13a82349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:52 +0000
Subject: [PATCH 04/60] fix: process a short segment at the end of the input
 like any other segment

A segment with few surfaces is processed when it is followed by a gap, but when
it was the last one the whole run failed with 'insufficient input records'.
---
 dedop/proc/sar/processor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index d97ba0c..fbe9042 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -174,6 +174,7 @@ class L1BProcessor(BaseProcessor):
             self.l1bs_file.open()
 
         prev_time = None
+        gap_found = False
         gap_processing = False
         gap_resume = False
         sub_monitor = None
@@ -200,8 +201,9 @@ class L1BProcessor(BaseProcessor):
                         input_packet = next(self.l1a_file)
                     except StopIteration:
                         input_packet = None
-                        if not surface_processing:
+                        if not surface_processing and not gap_found:
                             raise Exception("insufficient input records")
+                        surface_processing = True
                     else:
                         monitor.progress(1)
 
@@ -226,6 +228,7 @@ class L1BProcessor(BaseProcessor):
                             continue
 
                     else:
+                        gap_found = True
                         gap_processing = True
                         prev_time = None
                         sub_monitor = monitor.child(1)
-- 
2.43.0


From 1698cb5d3f76f2247296dd31e9e9eb9ecd73c144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:52 +0000
Subject: [PATCH 05/60] fix: do not carry beam angle history across a gap

The beam angles trend of the first packets after a gap was derived from the last
packets before it, so that their beams were assigned to the wrong surfaces.
---
 dedop/proc/sar/processor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index fbe9042..226ef9a 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -281,6 +281,10 @@ class L1BProcessor(BaseProcessor):
                     gap_processing = False  # end gap mode
                     gap_resume = True  # next iteration will be the first after the gap
                     surface_processing = False  # require min. number of surfaces again
+                    # nothing seen before the gap may affect what follows it
+                    self._packets = []
+                    self.beam_angles_list_size_prev = -1
+                    self.beam_angles_trend_prev = -1
                     sub_monitor.done()
                 else:
                     # the end of the input has been reached
-- 
2.43.0


From 63535c600e15dd5bc45b5db1f6a0c329818ee791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:52 +0000
Subject: [PATCH 06/60] fix: do not drop the last record inside the region of
 interest

---
 dedop/data/input/l1a/l1a_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index de315a4..db8f7e2 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -116,7 +116,7 @@ class L1ADataset(InputDataset):
             self._roi_filter = roi_filter
             indexes = np.argwhere(roi_filter)
             self._start_index = indexes.min()
-            self._final_index = indexes.max()
+            self._final_index = indexes.max() + 1
         else:
             self._roi_filter = None
             self._start_index = 0
-- 
2.43.0


From f615b2c925a9d993416ea2ed98cfcb1b5852538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:52 +0000
Subject: [PATCH 07/60] fix: interpolate antenna weights by angle

The interpolation ratio was computed from a weight instead of an angle.
---
 dedop/proc/sar/algorithms/multilooking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index 33aa647..ac1d249 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -212,7 +212,7 @@ class MultilookingAlgorithm(BaseAlgorithm):
             weight_right = self.chd.antenna_weights[index_right]
 
             # get proportion between the left & right weights
-            alpha = (angle - weight_left) / self.chd.antenna_angles_spacing
+            alpha = (angle - self.chd.antenna_angles[index_left]) / self.chd.antenna_angles_spacing
             # interpolate value
             selected_weight = weight_left + alpha * (weight_right - weight_left)
 
-- 
2.43.0


From 3f53dc70db080734a2e52419dec666203e54e916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:52 +0000
Subject: [PATCH 08/60] fix: no NaN in the multilooked waveform for samples
 masked in every beam

---
 dedop/proc/sar/algorithms/multilooking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index ac1d249..74cce6b 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -272,7 +272,9 @@ class MultilookingAlgorithm(BaseAlgorithm):
             self.waveform_multilooked[:] += weighted_beams[beam_index, :] * mask
             self.sample_counter[:] += mask
 
-        self.waveform_multilooked /= self.sample_counter
+        # samples that are masked in every beam remain zero
+        np.divide(self.waveform_multilooked, self.sample_counter,
+                  out=self.waveform_multilooked, where=self.sample_counter > 0)
 
         if stop_beam_index is None or start_beam_index is None:
             self.n_beams_start_stop = 0
-- 
2.43.0


From 94ee7259edf3120594c0b46c6db6592faf093c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:52 +0000
Subject: [PATCH 09/60] fix: swap the Hamming and Hanning azimuth window
 formulas

---
 .../proc/sar/algorithms/azimuth_processing.py | 460 +++++++++---------
 1 file changed, 230 insertions(+), 230 deletions(-)

diff --git a/dedop/proc/sar/algorithms/azimuth_processing.py b/dedop/proc/sar/algorithms/azimuth_processing.py
index 7e4e869..ba2adc0 100644
--- a/dedop/proc/sar/algorithms/azimuth_processing.py
+++ b/dedop/proc/sar/algorithms/azimuth_processing.py
@@ -1,230 +1,230 @@
-from math import cos
-import numpy as np
-from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
-from dedop.conf.enums import AzimuthWindowingMethod, AzimuthProcessingMethod
-from dedop.model import L1AProcessingData
-from dedop.util.parameter import Parameter
-from numpy.linalg import norm
-
-from ..base_algorithm import BaseAlgorithm
-
-
-@Parameter('flag_azimuth_processing_method', data_type=AzimuthProcessingMethod)
-class AzimuthProcessingAlgorithm(BaseAlgorithm):
-    """
-    class for performing the Azimuth Processing Algorithm
-    """
-    def __init__(self, chd: CharacterisationFile, cst: ConstantsFile, cnf: ConfigurationFile):
-        super().__init__(chd, cst, cnf)
-
-        self.beams_focused = None
-
-    def __call__(self, packet: L1AProcessingData, wavelength_ku: float) -> None:
-        """
-        Executes the azimuth processing algorithm
-
-        :param packet: The L1AProcessingData instance
-        :param wavelength_ku: The signal wavelength
-        """
-        self.beams_focused = np.empty(
-            packet.waveform_cor_sar.shape,
-            dtype=np.complex128
-        )
-
-        window = self.construct_azimuth_window(
-            self.cnf.flag_azimuth_windowing_method,
-            width=self.cnf.azimuth_window_width
-        )
-        windowed_wfm = packet.waveform_cor_sar * window[:, np.newaxis]
-
-        # azimuth processing with approx. method
-        if self.cnf.flag_azimuth_processing_method == AzimuthProcessingMethod.approximate:
-            self.compute_approximate_method(packet, windowed_wfm, wavelength_ku)
-        # azimuth processing with exact method
-        elif self.cnf.flag_azimuth_processing_method == AzimuthProcessingMethod.exact:
-            self.compute_exact_method(packet, windowed_wfm, wavelength_ku)
-        else:
-            raise ValueError("unknown azimuth processing method: {}".format(self.cnf.flag_azimuth_processing_method))
-
-    def construct_azimuth_window(self, window_shape: AzimuthWindowingMethod, width: int=64):
-        window = np.zeros((self.chd.n_ku_pulses_burst,), dtype=np.float64)
-
-        centre = self.chd.n_ku_pulses_burst // 2
-
-        start = centre - (width // 2)
-        end = start + width
-
-        if window_shape == AzimuthWindowingMethod.disabled:
-            window[:] = 1.
-        elif window_shape == AzimuthWindowingMethod.boxcar:
-            window[start:end] = 1.
-        elif window_shape == AzimuthWindowingMethod.hamming:
-            n = np.arange(width)
-            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
-        elif window_shape == AzimuthWindowingMethod.hanning:
-            n = np.arange(width)
-            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
-        else:
-            raise NotImplementedError(
-                "Unsupported Azimuth Windowing Method: {}".format(window_shape)
-            )
-
-        return window
-
-    def compute_approximate_method(self, packet: L1AProcessingData, windowed_wfm: np.ndarray,
-                                   wavelength_ku: float) -> None:
-        """
-        Azimuth processing approximate method
-
-        the azimuth processing is done only once, using the beam
-        angle phase of the beam pointing to the nadir (considered
-        the central beam)
-
-        :param packet: L1AProcessingData instance
-        :param windowed_wfm: the input waveform with windowing applied
-        :param wavelength_ku: signal wavelength
-        """
-        # find the nadir beam angle
-        nadir_beam_angle = self.get_nadir_beam_angle(packet)
-
-        # use the nadir beam angle to compute the phase shift
-        wfm_phase_shift = self.compute_phase_shift(
-            packet, windowed_wfm, nadir_beam_angle, wavelength_ku
-        )
-        # compute the azimuth FFTs
-        wfm_fft_azimuth = self.compute_fft_azimuth_dimension(
-            wfm_phase_shift
-        )
-
-        # the result is the focused beams. If the list of beam angles
-        # is increasing in size, then the useful first beams are in the
-        # output of the waveform_fft_azimuth (because the first part of the
-        # waveform_fft_azimuth beams point to surfaces that are before the
-        # first surface). This way we will always have the beams in the same
-        # position as the corresponding beam angle in the beam angle/surfaces
-        # seen lists.
-        if packet.beam_angles_trend == 1:
-            beams_offset = self.chd.n_ku_pulses_burst -\
-                           len(packet.beam_angles_list)
-        else:
-            beams_offset = 0
-        copy_end = self.chd.n_ku_pulses_burst - beams_offset
-        self.beams_focused[:copy_end, :] = wfm_fft_azimuth[beams_offset:, :]
-
-    def compute_exact_method(self, packet: L1AProcessingData, windowed_wfm: np.ndarray, wavelength_ku: float) -> None:
-        """
-        Azimuth processing exact method
-
-        The azimuth processing is performed for each surface seen,
-        and the beam angle at each surface is used to compute the phase
-        shift. The central beam of the result of the FFT is used, and
-        placed in the array position corresponding to the beam angle
-        from which it was computed.
-
-        :param packet: L1AProcessingData
-        :param windowed_wfm: the input waveform with windowing applied
-        :param wavelength_ku: signal wavelength
-        """
-        for beam_index, beam_angle_value in enumerate(packet.beam_angles_list):
-            # calculate the shape shift based upon the current
-            # beam angle
-            wfm_phase_shift = self.compute_phase_shift(
-                packet, windowed_wfm, beam_angle_value, wavelength_ku
-            )
-            # calculate the FFT of the current beam
-            wfm_fft_azimuth = self.compute_fft_azimuth_dimension(
-                wfm_phase_shift
-            )
-            # insert the central beam of the result into the same
-            # position as the beam angle in the beam angle/surface seen
-            # lists (this way the beams can be easily matched to surfaces)
-            self.beams_focused[beam_index, :] =\
-                wfm_fft_azimuth[self.chd.n_ku_pulses_burst // 2, :]
-
-    def compute_phase_shift(self, packet: L1AProcessingData, windowed_wfm: np.ndarray, beam_angle: float,
-                            wavelength_ku: float) -> np.ndarray:
-        """
-        For each pulse of the burst, a phase (based on the given beam
-        angle value) is applied to the waveform
-
-        :param packet: the current L1AProcessingData
-        :param windowed_wfm: the input waveform with windowing applied
-        :param beam_angle: the input beam angle
-        :param wavelength_ku: the signal wavelength
-
-        :return waveform_phase_shift: the phase shifted waveform
-        """
-        # create empty output array
-        waveform_phase_shift = np.empty(
-            windowed_wfm.shape,
-            dtype=np.complex128
-        )
-
-        for pulse_index in range(self.chd.n_ku_pulses_burst):
-            beam_angle_phase = np.exp(-2j * 2. * self.cst.pi / wavelength_ku *
-                                      norm(packet.vel_sat_sar) * cos(beam_angle) *
-                                      packet.pri_sar_pre_dat * pulse_index)
-            waveform_phase_shift[pulse_index, :] = \
-                beam_angle_phase * windowed_wfm[pulse_index, :]
-
-        return waveform_phase_shift
-
-    def compute_fft_azimuth_dimension(self, waveform_phase_shift: np.ndarray) -> np.ndarray:
-        """
-        :param waveform_phase_shift: the phase shifted waveform to transform
-
-        :return waveform_fft_azimuth: The shifted FFT along the azimuth direction
-        """
-        # compute the FFT along the azimuth dimension,
-        # and apply orthogonal normalization to the result
-        out_fft = np.fft.fft(
-            waveform_phase_shift,
-            axis=0, norm='ortho'
-        )
-        # return the shifted FFT values
-        return np.fft.fftshift(
-            out_fft, axes=0
-        )
-
-    def get_nadir_beam_angle(self, packet: L1AProcessingData) -> float:
-        """
-        :param packet: The L1AProcessingData to be processed
-
-        :return: nadir_beam_angle
-        """
-        beam_angles_list_size = len(packet.beam_angles_list)
-        half_pulses = self.chd.n_ku_pulses_burst // 2
-
-        # if the beam angles list is not full (64), and the trend indicates
-        # that the size is increasing, the nadir beam is first of the last 'half_pulses'
-        # (or the first if are less than 'half_pulses' elements
-        if packet.beam_angles_trend == 1:
-            # if there aren't enough elements, pick the first one
-            if beam_angles_list_size < half_pulses:
-                nadir_beam_index = 0
-            # otherwise, get first of the last 'half_pulses'
-            else:
-                nadir_beam_index = -half_pulses
-
-        # if the mbeam angles list is not full (64), and the trend indicates
-        # that the size is decreasing, the nadir beam is the 33rd (or the last
-        # if there are less than 33 elements)
-        elif packet.beam_angles_trend == -1:
-            # if there aren't enough elements, pick the last one
-            if beam_angles_list_size <= half_pulses:
-                nadir_beam_index = -1
-            # otherwise, get the last of the first 'half_pulses'
-            else:
-                nadir_beam_index = half_pulses
-        # if the beam angles list is full, the nadir beam is the 33rd one
-        elif packet.beam_angles_trend == 0:
-            nadir_beam_index = half_pulses
-        # check for invalid trend directions
-        else:
-            raise Exception(
-                "Beam Angle Trend must be in {-1, 0, 1}"
-            )
-
-        # after the index has been selected, get the corresponding beam angle
-        nadir_beam_angle = packet.beam_angles_list[nadir_beam_index]
-        return nadir_beam_angle
+from math import cos
+import numpy as np
+from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
+from dedop.conf.enums import AzimuthWindowingMethod, AzimuthProcessingMethod
+from dedop.model import L1AProcessingData
+from dedop.util.parameter import Parameter
+from numpy.linalg import norm
+
+from ..base_algorithm import BaseAlgorithm
+
+
+@Parameter('flag_azimuth_processing_method', data_type=AzimuthProcessingMethod)
+class AzimuthProcessingAlgorithm(BaseAlgorithm):
+    """
+    class for performing the Azimuth Processing Algorithm
+    """
+    def __init__(self, chd: CharacterisationFile, cst: ConstantsFile, cnf: ConfigurationFile):
+        super().__init__(chd, cst, cnf)
+
+        self.beams_focused = None
+
+    def __call__(self, packet: L1AProcessingData, wavelength_ku: float) -> None:
+        """
+        Executes the azimuth processing algorithm
+
+        :param packet: The L1AProcessingData instance
+        :param wavelength_ku: The signal wavelength
+        """
+        self.beams_focused = np.empty(
+            packet.waveform_cor_sar.shape,
+            dtype=np.complex128
+        )
+
+        window = self.construct_azimuth_window(
+            self.cnf.flag_azimuth_windowing_method,
+            width=self.cnf.azimuth_window_width
+        )
+        windowed_wfm = packet.waveform_cor_sar * window[:, np.newaxis]
+
+        # azimuth processing with approx. method
+        if self.cnf.flag_azimuth_processing_method == AzimuthProcessingMethod.approximate:
+            self.compute_approximate_method(packet, windowed_wfm, wavelength_ku)
+        # azimuth processing with exact method
+        elif self.cnf.flag_azimuth_processing_method == AzimuthProcessingMethod.exact:
+            self.compute_exact_method(packet, windowed_wfm, wavelength_ku)
+        else:
+            raise ValueError("unknown azimuth processing method: {}".format(self.cnf.flag_azimuth_processing_method))
+
+    def construct_azimuth_window(self, window_shape: AzimuthWindowingMethod, width: int=64):
+        window = np.zeros((self.chd.n_ku_pulses_burst,), dtype=np.float64)
+
+        centre = self.chd.n_ku_pulses_burst // 2
+
+        start = centre - (width // 2)
+        end = start + width
+
+        if window_shape == AzimuthWindowingMethod.disabled:
+            window[:] = 1.
+        elif window_shape == AzimuthWindowingMethod.boxcar:
+            window[start:end] = 1.
+        elif window_shape == AzimuthWindowingMethod.hamming:
+            n = np.arange(width)
+            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
+        elif window_shape == AzimuthWindowingMethod.hanning:
+            n = np.arange(width)
+            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
+        else:
+            raise NotImplementedError(
+                "Unsupported Azimuth Windowing Method: {}".format(window_shape)
+            )
+
+        return window
+
+    def compute_approximate_method(self, packet: L1AProcessingData, windowed_wfm: np.ndarray,
+                                   wavelength_ku: float) -> None:
+        """
+        Azimuth processing approximate method
+
+        the azimuth processing is done only once, using the beam
+        angle phase of the beam pointing to the nadir (considered
+        the central beam)
+
+        :param packet: L1AProcessingData instance
+        :param windowed_wfm: the input waveform with windowing applied
+        :param wavelength_ku: signal wavelength
+        """
+        # find the nadir beam angle
+        nadir_beam_angle = self.get_nadir_beam_angle(packet)
+
+        # use the nadir beam angle to compute the phase shift
+        wfm_phase_shift = self.compute_phase_shift(
+            packet, windowed_wfm, nadir_beam_angle, wavelength_ku
+        )
+        # compute the azimuth FFTs
+        wfm_fft_azimuth = self.compute_fft_azimuth_dimension(
+            wfm_phase_shift
+        )
+
+        # the result is the focused beams. If the list of beam angles
+        # is increasing in size, then the useful first beams are in the
+        # output of the waveform_fft_azimuth (because the first part of the
+        # waveform_fft_azimuth beams point to surfaces that are before the
+        # first surface). This way we will always have the beams in the same
+        # position as the corresponding beam angle in the beam angle/surfaces
+        # seen lists.
+        if packet.beam_angles_trend == 1:
+            beams_offset = self.chd.n_ku_pulses_burst -\
+                           len(packet.beam_angles_list)
+        else:
+            beams_offset = 0
+        copy_end = self.chd.n_ku_pulses_burst - beams_offset
+        self.beams_focused[:copy_end, :] = wfm_fft_azimuth[beams_offset:, :]
+
+    def compute_exact_method(self, packet: L1AProcessingData, windowed_wfm: np.ndarray, wavelength_ku: float) -> None:
+        """
+        Azimuth processing exact method
+
+        The azimuth processing is performed for each surface seen,
+        and the beam angle at each surface is used to compute the phase
+        shift. The central beam of the result of the FFT is used, and
+        placed in the array position corresponding to the beam angle
+        from which it was computed.
+
+        :param packet: L1AProcessingData
+        :param windowed_wfm: the input waveform with windowing applied
+        :param wavelength_ku: signal wavelength
+        """
+        for beam_index, beam_angle_value in enumerate(packet.beam_angles_list):
+            # calculate the shape shift based upon the current
+            # beam angle
+            wfm_phase_shift = self.compute_phase_shift(
+                packet, windowed_wfm, beam_angle_value, wavelength_ku
+            )
+            # calculate the FFT of the current beam
+            wfm_fft_azimuth = self.compute_fft_azimuth_dimension(
+                wfm_phase_shift
+            )
+            # insert the central beam of the result into the same
+            # position as the beam angle in the beam angle/surface seen
+            # lists (this way the beams can be easily matched to surfaces)
+            self.beams_focused[beam_index, :] =\
+                wfm_fft_azimuth[self.chd.n_ku_pulses_burst // 2, :]
+
+    def compute_phase_shift(self, packet: L1AProcessingData, windowed_wfm: np.ndarray, beam_angle: float,
+                            wavelength_ku: float) -> np.ndarray:
+        """
+        For each pulse of the burst, a phase (based on the given beam
+        angle value) is applied to the waveform
+
+        :param packet: the current L1AProcessingData
+        :param windowed_wfm: the input waveform with windowing applied
+        :param beam_angle: the input beam angle
+        :param wavelength_ku: the signal wavelength
+
+        :return waveform_phase_shift: the phase shifted waveform
+        """
+        # create empty output array
+        waveform_phase_shift = np.empty(
+            windowed_wfm.shape,
+            dtype=np.complex128
+        )
+
+        for pulse_index in range(self.chd.n_ku_pulses_burst):
+            beam_angle_phase = np.exp(-2j * 2. * self.cst.pi / wavelength_ku *
+                                      norm(packet.vel_sat_sar) * cos(beam_angle) *
+                                      packet.pri_sar_pre_dat * pulse_index)
+            waveform_phase_shift[pulse_index, :] = \
+                beam_angle_phase * windowed_wfm[pulse_index, :]
+
+        return waveform_phase_shift
+
+    def compute_fft_azimuth_dimension(self, waveform_phase_shift: np.ndarray) -> np.ndarray:
+        """
+        :param waveform_phase_shift: the phase shifted waveform to transform
+
+        :return waveform_fft_azimuth: The shifted FFT along the azimuth direction
+        """
+        # compute the FFT along the azimuth dimension,
+        # and apply orthogonal normalization to the result
+        out_fft = np.fft.fft(
+            waveform_phase_shift,
+            axis=0, norm='ortho'
+        )
+        # return the shifted FFT values
+        return np.fft.fftshift(
+            out_fft, axes=0
+        )
+
+    def get_nadir_beam_angle(self, packet: L1AProcessingData) -> float:
+        """
+        :param packet: The L1AProcessingData to be processed
+
+        :return: nadir_beam_angle
+        """
+        beam_angles_list_size = len(packet.beam_angles_list)
+        half_pulses = self.chd.n_ku_pulses_burst // 2
+
+        # if the beam angles list is not full (64), and the trend indicates
+        # that the size is increasing, the nadir beam is first of the last 'half_pulses'
+        # (or the first if are less than 'half_pulses' elements
+        if packet.beam_angles_trend == 1:
+            # if there aren't enough elements, pick the first one
+            if beam_angles_list_size < half_pulses:
+                nadir_beam_index = 0
+            # otherwise, get first of the last 'half_pulses'
+            else:
+                nadir_beam_index = -half_pulses
+
+        # if the mbeam angles list is not full (64), and the trend indicates
+        # that the size is decreasing, the nadir beam is the 33rd (or the last
+        # if there are less than 33 elements)
+        elif packet.beam_angles_trend == -1:
+            # if there aren't enough elements, pick the last one
+            if beam_angles_list_size <= half_pulses:
+                nadir_beam_index = -1
+            # otherwise, get the last of the first 'half_pulses'
+            else:
+                nadir_beam_index = half_pulses
+        # if the beam angles list is full, the nadir beam is the 33rd one
+        elif packet.beam_angles_trend == 0:
+            nadir_beam_index = half_pulses
+        # check for invalid trend directions
+        else:
+            raise Exception(
+                "Beam Angle Trend must be in {-1, 0, 1}"
+            )
+
+        # after the index has been selected, get the corresponding beam angle
+        nadir_beam_angle = packet.beam_angles_list[nadir_beam_index]
+        return nadir_beam_angle
-- 
2.43.0


From a42f01a8dfcdbf435307a70db6a2cbd098faf3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:52 +0000
Subject: [PATCH 10/60] fix: altitude of points near the south pole

The scalar branch lacked the abs() which the array branch has.
---
 dedop/proc/geo/ecef2lla.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/geo/ecef2lla.py b/dedop/proc/geo/ecef2lla.py
index cbe6279..1953751 100644
--- a/dedop/proc/geo/ecef2lla.py
+++ b/dedop/proc/geo/ecef2lla.py
@@ -88,7 +88,7 @@ def ecef2lla(ecef: Sequence[float], cst: ConstantsFile) -> Tuple[float, float, f
 
     if isinstance(alt, numbers.Number):
         if abs(x)<1 and abs(y)<1:
-            alt = z - b
+            alt = abs(z) - b
     else:
         k = logical_and(abs(x)<1, abs(y)<1)
         alt[k] = abs(z[k]) - b
-- 
2.43.0


From a56151d001d66cfcf3bde13cfd67cb8206d70dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:52 +0000
Subject: [PATCH 11/60] fix: angle between opposite vectors is pi, not NaN

---
 dedop/proc/functions/vectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/proc/functions/vectors.py b/dedop/proc/functions/vectors.py
index 0f8f7b8..9e3263a 100644
--- a/dedop/proc/functions/vectors.py
+++ b/dedop/proc/functions/vectors.py
@@ -10,5 +10,7 @@ def angle_between(vec1: np.ndarray, vec2: np.ndarray) -> float:
           (norm(vec1) * norm(vec2))
     if arg > 1:
         arg = 1
+    elif arg < -1:
+        arg = -1
 
     return np.arccos(arg)
-- 
2.43.0


From d6fc56862af1c8b0ae4fb91c2307bee6fee1d5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:20 +0000
Subject: [PATCH 12/60] fix: close input and output files when processing fails

A failed run left its files open, so that the products were unreadable and
processing the same input again failed with a permission error.
---
 dedop/data/output/netcdf_writer.py |  3 ++-
 dedop/proc/sar/processor.py        | 19 +++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/dedop/data/output/netcdf_writer.py b/dedop/data/output/netcdf_writer.py
index 62b07e9..8644c4c 100644
--- a/dedop/data/output/netcdf_writer.py
+++ b/dedop/data/output/netcdf_writer.py
@@ -336,7 +336,8 @@ class NetCDFWriter(metaclass=ABCMeta):
         """
         close the netCDF file
         """
-        self._root.close()
+        if self._root.isopen():
+            self._root.close()
 
     def get_variable(self, varname: str) -> nc.Variable:
         return getattr(self, varname)
diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 226ef9a..c25cd92 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -63,6 +63,8 @@ class L1BProcessor(BaseProcessor):
         self.out_path = out_path
         self.name = name
         self.l1a_file = None
+        self.l1b_file = None
+        self.l1bs_file = None
 
         # init. surface & packets arrays
         self._surfaces = []
@@ -113,8 +115,11 @@ class L1BProcessor(BaseProcessor):
 
         t0 = time.time()
 
-        with monitor.starting('processing', total_work=len(self.l1a_file)):
-            status = self._process(l1a_file, monitor)
+        try:
+            with monitor.starting('processing', total_work=len(self.l1a_file)):
+                status = self._process(l1a_file, monitor)
+        finally:
+            self._close_files()
 
         dt = time.time() - t0
 
@@ -126,6 +131,16 @@ class L1BProcessor(BaseProcessor):
 
         return status
 
+    def _close_files(self):
+        """
+        close the input & output files, even if the processing failed
+        """
+        self.l1a_file.close()
+        if self.l1b_file is not None:
+            self.l1b_file.close()
+        if self.l1bs_file is not None:
+            self.l1bs_file.close()
+
     def _process(self, l1a_file, monitor):
         running = True
         surface_processing = False
-- 
2.43.0


From 1c339ee3c3cc951b62a0c24313407eafdbee4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:20 +0000
Subject: [PATCH 13/60] fix: accept L1A files without a product_name attribute

All global attributes of the L1A file are optional, but a missing product name
made the run fail after all records had been processed.
---
 dedop/data/input/l1a/l1a_dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index db8f7e2..0ee139f 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -76,9 +76,13 @@ class L1AGlobals:
             attrs.get('product_name')
 
     def get_l1b_product_name(self):
+        if self.product_name is None:
+            return None
         return self.product_name.replace('_A__', '____')
 
     def get_l1bs_product_name(self):
+        if self.product_name is None:
+            return None
         return self.product_name.replace('_A__', '_BS_')
 
 
-- 
2.43.0


From 8eabcdf7b49c5449945022ced07b99a00d7fe386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:20 +0000
Subject: [PATCH 14/60] fix: midnight belongs to the new day

A surface exactly at midnight was written as second 86400 of the previous day.
---
 dedop/data/output/l1b_writer.py  | 4 ++--
 dedop/data/output/l1bs_writer.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/data/output/l1b_writer.py b/dedop/data/output/l1b_writer.py
index ca199f2..8420d5e 100644
--- a/dedop/data/output/l1b_writer.py
+++ b/dedop/data/output/l1b_writer.py
@@ -847,7 +847,7 @@ class L1BWriterExtended(NetCDFWriter):
         time_interval = surface_location_data.time_surf - surface_location_data.prev_tai
         utc_secs = surface_location_data.prev_utc_secs + time_interval
 
-        if utc_secs > surface_location_data.curr_day_length:
+        if utc_secs >= surface_location_data.curr_day_length:
             utc_secs -= surface_location_data.curr_day_length
             utc_days = surface_location_data.prev_utc_days + 1
         else:
@@ -1569,7 +1569,7 @@ class L1BWriter(NetCDFWriter):
         time_interval = surface_location_data.time_surf - surface_location_data.prev_tai
         utc_secs = surface_location_data.prev_utc_secs + time_interval
 
-        if utc_secs > surface_location_data.curr_day_length:
+        if utc_secs >= surface_location_data.curr_day_length:
             utc_secs -= surface_location_data.curr_day_length
             utc_days = surface_location_data.prev_utc_days + 1
         else:
diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 5699eb3..78b05d0 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -634,7 +634,7 @@ class L1BSWriter(NetCDFWriter):
         time_interval = surface_location_data.time_surf - surface_location_data.prev_tai
         utc_secs = surface_location_data.prev_utc_secs + time_interval
 
-        if utc_secs > surface_location_data.curr_day_length:
+        if utc_secs >= surface_location_data.curr_day_length:
             utc_secs -= surface_location_data.curr_day_length
             utc_days = surface_location_data.prev_utc_days + 1
         else:
-- 
2.43.0


From 4ffeb60a981c448c36f77f31692212f9753976e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:20 +0000
Subject: [PATCH 15/60] fix: look angles do not fit the packing of the L1B
 variable

Look angles are centred at zero, an offset of 1.57 overflows the 16 bit integer.
---
 dedop/data/output/l1b_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/output/l1b_writer.py b/dedop/data/output/l1b_writer.py
index 8420d5e..8f2d8df 100644
--- a/dedop/data/output/l1b_writer.py
+++ b/dedop/data/output/l1b_writer.py
@@ -699,7 +699,7 @@ class L1BWriterExtended(NetCDFWriter):
             comment="the useful values of the table are the first n_useful values where n_useful is"
                     "the number of waveforms summed in the stack",
             scale_factor=1.0e-06,
-            add_offset=1.57,
+            add_offset=0.00,
             units="rad",
             fill_value=32767
         )
-- 
2.43.0


From c309c5cfd67e0f5e1977e685677caa77845b86da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:20 +0000
Subject: [PATCH 16/60] fix: UTC day and seconds of the first surface

They were computed from the time of the previously found surface, or from zero.
---
 dedop/proc/sar/algorithms/surface_locations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dedop/proc/sar/algorithms/surface_locations.py b/dedop/proc/sar/algorithms/surface_locations.py
index f71bb4c..01f0411 100644
--- a/dedop/proc/sar/algorithms/surface_locations.py
+++ b/dedop/proc/sar/algorithms/surface_locations.py
@@ -123,6 +123,11 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
 
         self.win_delay_surf = isp_record.win_delay_sar_ku
 
+        self.prev_tai = isp_record.time_sar_ku
+        self.prev_utc_days = isp_record.days
+        self.prev_utc_secs = isp_record.seconds
+        self.curr_day_length = self.cst.sec_in_day
+
     def focus_surface(self, surface_to_move: SurfaceData, previous_surface: SurfaceData) -> None:
         """
         move the location of a surface to the closest approach to the target position
-- 
2.43.0


From 743cd8ba8570c13a4e2310ab8f2dbb3969547c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:20 +0000
Subject: [PATCH 17/60] fix: do not focus on a target that lies behind the
 first surfaces

When the distance to the target increases from the start there is no closest
approach in this pass; the second surface was moved far off instead.
---
 dedop/proc/sar/algorithms/surface_locations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/surface_locations.py b/dedop/proc/sar/algorithms/surface_locations.py
index 01f0411..ea9831a 100644
--- a/dedop/proc/sar/algorithms/surface_locations.py
+++ b/dedop/proc/sar/algorithms/surface_locations.py
@@ -229,7 +229,8 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
             new_dist = self.focus_target_distance(new_pos)
 
             if len(surfaces) > 1 and not self.focus_found and \
-               new_dist - surfaces[-1].focus_target_distance > 0:
+               new_dist - surfaces[-1].focus_target_distance > 0 and \
+               surfaces[-1].focus_target_distance <= surfaces[-2].focus_target_distance:
                 self.focus_surface(surfaces[-1], surfaces[-2])
 
         return self.new_surf
-- 
2.43.0


From 79795be23cc9427a91a6486617e0bec6fe5d0414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:04 +0000
Subject: [PATCH 18/60] fix: write all surface longitudes of a product in the
 range -180..180

The first surface used this convention already, all others were in 0..360.
---
 dedop/proc/sar/algorithms/surface_locations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedop/proc/sar/algorithms/surface_locations.py b/dedop/proc/sar/algorithms/surface_locations.py
index ea9831a..661a925 100644
--- a/dedop/proc/sar/algorithms/surface_locations.py
+++ b/dedop/proc/sar/algorithms/surface_locations.py
@@ -179,7 +179,7 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
         focus_lla = ecef2lla(focus_ecef, self.cst)
         focus_lat, focus_lon, focus_alt = np.ravel(focus_lla)
         surface_to_move.lat_surf = focus_lat
-        surface_to_move.lon_surf = focus_lon
+        surface_to_move.lon_surf = normalize(focus_lon, self.cst)
         surface_to_move.alt_surf = focus_alt
 
         surface_to_move.win_delay_surf =\
@@ -288,7 +288,7 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
                                   self.z_surf])
         surf_loc_geod = ecef2lla(surf_loc_cart, self.cst)
         self.lat_surf = surf_loc_geod[0]
-        self.lon_surf = surf_loc_geod[1]
+        self.lon_surf = normalize(surf_loc_geod[1], self.cst)
         self.alt_surf = surf_loc_geod[2]
 
         self.x_sat = isp_prev.x_sar_sat +\
-- 
2.43.0


From 6117aae920f4c132be6e3de5848f0070ca011a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:16 +0000
Subject: [PATCH 19/60] fix: a stack without any power does not stop the
 processing

Echoes that are all zero, or that are masked completely, left the Gaussian fit without valid data
(ValueError) and made the dynamic scale factors of the products zero (NaN in packed variables).
---
 dedop/data/output/l1b_writer.py           | 3 +++
 dedop/data/output/l1bs_writer.py          | 3 +++
 dedop/proc/sar/algorithms/multilooking.py | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dedop/data/output/l1b_writer.py b/dedop/data/output/l1b_writer.py
index 8f2d8df..04176d4 100644
--- a/dedop/data/output/l1b_writer.py
+++ b/dedop/data/output/l1b_writer.py
@@ -855,6 +855,9 @@ class L1BWriterExtended(NetCDFWriter):
 
         # scale_factor = pow(10, -closest_burst.agc_ku / 10)
         scale_factor = surface_location_data.waveform_multilooked.max()
+        if scale_factor <= 0:
+            # no power at all: nothing to scale
+            scale_factor = 1.
 
         # import matplotlib.pyplot as plt
         # plt.plot(surface_location_data.waveform_multilooked)
diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 78b05d0..e55cb48 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -647,6 +647,9 @@ class L1BSWriter(NetCDFWriter):
         max_iq = max(np.max(np.abs(stack_i)), np.max(np.abs(stack_q)))
 
         dynamic_scale = max_iq / 127.
+        if dynamic_scale <= 0:
+            # no signal at all: nothing to scale
+            dynamic_scale = 1.
 
         super().write_record(
             time_l1bs_echo_sar_ku=surface_location_data.time_surf,
diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index 74cce6b..f6843d3 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -33,7 +33,7 @@ def gauss_fit(x: np.ndarray, y: np.ndarray) -> List[float]:
             fit_params, _ = curve_fit(
                 gauss, x, y
             )
-        except (RuntimeError, OptimizeWarning, TypeError):
+        except (RuntimeError, OptimizeWarning, TypeError, ValueError):
             return [1, 1, 1]
 
     return fit_params
-- 
2.43.0


From 4e8a49aaca13106d23459375fc439393698e1a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:16 +0000
Subject: [PATCH 20/60] fix: the standard deviation of a stack is never
 negative

The Gaussian fit may return a negative width, which wrapped around in the unsigned product variable.
---
 dedop/proc/sar/algorithms/multilooking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index f6843d3..f5abacb 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -137,7 +137,8 @@ class MultilookingAlgorithm(BaseAlgorithm):
         fit_params_l = gauss_fit(look_angles_surf_center, beam_power_center)
         self.stack_max = fit_params_l[0]
         self.look_angle_centre = fit_params_l[1]
-        self.stack_std = fit_params_l[2] / 2
+        # the width enters the fitted function squared, so its sign is arbitrary
+        self.stack_std = abs(fit_params_l[2]) / 2
 
         fit_params_p = gauss_fit(pointing_angles_surf_center, beam_power_center)
         self.pointing_angle_centre = fit_params_p[1]
-- 
2.43.0


From 7f1f5bcaeefcaa4ff695d08a340af8074305f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:16 +0000
Subject: [PATCH 21/60] fix: no NaN in the skewness and kurtosis of a flat
 stack

---
 dedop/proc/sar/algorithms/multilooking.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index f5abacb..c2b66a3 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -157,6 +157,10 @@ class MultilookingAlgorithm(BaseAlgorithm):
         self.stack_skewness = 0
         self.stack_kurtosis = 0
 
+        if not power_fitted_std > 0:
+            # flat stack: the moments are not defined
+            return
+
         for sample_index in range(n_samples_fitting):
             self.stack_skewness +=\
                 ((power_fitted[sample_index] - power_fitted_mean) / power_fitted_std) ** 3
-- 
2.43.0


From 41e866deb56f2d2b1487c82af5803a7d500d298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:52 +0000
Subject: [PATCH 22/60] fix: find the antenna weights of an angle in the angle
 table itself

The index was derived from the configured spacing: a rounded spacing (or rounding in the division) selected
the wrong pair of weights, and ran off the end of the table for angles close to its last entry.
---
 dedop/proc/sar/algorithms/multilooking.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index c2b66a3..8177b52 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -208,16 +208,16 @@ class MultilookingAlgorithm(BaseAlgorithm):
             selected_weight = self.chd.antenna_weights[-1]
         else:
             # angle is within range - interpolate value
-            weight_index = (angle - self.chd.antenna_angles[0]) / self.chd.antenna_angles_spacing
-
-            index_left = int(weight_index)
-            index_right = index_left + 1
+            index_right = int(np.searchsorted(self.chd.antenna_angles, angle))
+            index_left = index_right - 1
 
             weight_left = self.chd.antenna_weights[index_left]
             weight_right = self.chd.antenna_weights[index_right]
 
             # get proportion between the left & right weights
-            alpha = (angle - self.chd.antenna_angles[index_left]) / self.chd.antenna_angles_spacing
+            angle_left = self.chd.antenna_angles[index_left]
+            angle_right = self.chd.antenna_angles[index_right]
+            alpha = (angle - angle_left) / (angle_right - angle_left)
             # interpolate value
             selected_weight = weight_left + alpha * (weight_right - weight_left)
 
-- 
2.43.0


From 970f66c8c7ae073944d1744090e3638cc4f906c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:04 +0000
Subject: [PATCH 23/60] fix: report processing problems as ProcessorException

---
 dedop/model/processor.py    | 1 +
 dedop/proc/sar/processor.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedop/model/processor.py b/dedop/model/processor.py
index 7da95b5..6d8c697 100644
--- a/dedop/model/processor.py
+++ b/dedop/model/processor.py
@@ -3,6 +3,7 @@ import time
 from abc import ABCMeta, abstractmethod
 
 from dedop.util.monitor import Monitor
+from .exception import ProcessorException
 
 
 class BaseProcessor(metaclass=ABCMeta):
diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index c25cd92..5c8d063 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -9,6 +9,7 @@ from dedop.conf.enums import OutputFormat
 from dedop.data.input.l1a import L1ADataset
 from dedop.data.output import L1BSWriter, L1BWriter, L1BWriterExtended
 from dedop.model import SurfaceData, L1AProcessingData
+from dedop.model.exception import ProcessorException
 from dedop.model.processor import BaseProcessor
 from dedop.util.monitor import Monitor
 from dedop.util.time import iso_format
@@ -217,7 +218,7 @@ class L1BProcessor(BaseProcessor):
                     except StopIteration:
                         input_packet = None
                         if not surface_processing and not gap_found:
-                            raise Exception("insufficient input records")
+                            raise ProcessorException("insufficient input records")
                         surface_processing = True
                     else:
                         monitor.progress(1)
-- 
2.43.0


From e9daad6cb869255ceb66b273d171a3e50e1a110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:25 +0000
Subject: [PATCH 24/60] fix: workspace and configuration names must not lead
 outside of their directory

---
 dedop/ui/workspace_manager.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 9fdb6ec..dda88cf 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -100,13 +100,15 @@ class WorkspaceManager:
         return Workspace(None, current_workspace)
 
     def set_current_workspace_name(self, workspace_name: str):
-        self._assert_workspace_exists(workspace_name)
+        # an empty name means that there is no current workspace
+        if workspace_name:
+            self._assert_workspace_exists(workspace_name)
         _writeline(os.path.join(self._workspaces_dir, _CURRENT_FILE_NAME), workspace_name)
         workspace_dir = self.get_workspace_path(workspace_name)
         return Workspace(workspace_dir, workspace_name, is_current=True)
 
     def workspace_exists(self, workspace_name) -> bool:
-        return os.path.exists(self.get_workspace_path(workspace_name))
+        return self._is_valid_name(workspace_name) and os.path.isdir(self.get_workspace_path(workspace_name))
 
     def create_workspace(self, workspace_name: str) -> Workspace:
         """
@@ -115,6 +117,7 @@ class WorkspaceManager:
         """
         if not workspace_name:
             raise WorkspaceError('no workspace name is specified')
+        self._assert_valid_name(workspace_name)
         workspace_dir = self.get_workspace_path(workspace_name)
         if os.path.isdir(workspace_dir) and os.listdir(workspace_dir):
             raise WorkspaceError('workspace "%s" already exists' % workspace_name)
@@ -141,6 +144,7 @@ class WorkspaceManager:
         :raise: WorkspaceError
         """
         self._assert_workspace_exists(workspace_name)
+        self._assert_valid_name(new_workspace_name)
         dir_path = self.get_workspace_path('')
         if os.path.exists(dir_path):
             try:
@@ -160,6 +164,7 @@ class WorkspaceManager:
         self._assert_workspace_exists(workspace_name)
         if not new_workspace_name:
             raise WorkspaceError("missing the new workspace name")
+        self._assert_valid_name(new_workspace_name)
         dir_path = self.get_workspace_path('')
         if os.path.exists(dir_path):
             try:
@@ -187,7 +192,7 @@ class WorkspaceManager:
 
     def config_exists(self, workspace_name: str, config_name: str) -> bool:
         config_dir = self.get_config_path(workspace_name, config_name)
-        return os.path.isdir(config_dir) and os.listdir(config_dir)
+        return self._is_valid_name(config_name) and os.path.isdir(config_dir) and os.listdir(config_dir)
 
     def create_config(self, workspace_name: str, config_name: str, cryosat: bool = False):
         """
@@ -196,6 +201,7 @@ class WorkspaceManager:
         :param config_name: the name of the configuration to be added
         """
         self._assert_workspace_exists(workspace_name)
+        self._assert_valid_name(config_name)
         if self.config_exists(workspace_name, config_name):
             raise WorkspaceError('workspace "%s" already contains a configuration "%s"' % (workspace_name, config_name))
         config_dir = self.get_config_path(workspace_name, config_name)
@@ -230,6 +236,7 @@ class WorkspaceManager:
         """
         self._assert_workspace_exists(workspace_name)
         self._assert_config_exists(workspace_name, config_name)
+        self._assert_valid_name(new_config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
         dir_path_new = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, new_config_name)
         if os.path.exists(dir_path):
@@ -247,6 +254,7 @@ class WorkspaceManager:
         """
         self._assert_workspace_exists(workspace_name)
         self._assert_config_exists(workspace_name, config_name)
+        self._assert_valid_name(new_config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
         dir_path_new = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, new_config_name)
         if os.path.exists(dir_path):
@@ -284,7 +292,9 @@ class WorkspaceManager:
 
     def set_current_config_name(self, workspace_name: str, config_name: str):
         self._assert_workspace_exists(workspace_name)
-        self._assert_config_exists(workspace_name, config_name)
+        # an empty name means that there is no current configuration
+        if config_name:
+            self._assert_config_exists(workspace_name, config_name)
         _writeline(self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, _CURRENT_FILE_NAME), config_name)
 
     def get_config_version(self, workspace_name: str, config_name: str, config_file_key: str) -> int:
@@ -673,11 +683,23 @@ class WorkspaceManager:
         return name if len(name) <= max_len else (
             '...' + name[3 - max_len:] if mode == 'r' else name[:max_len - 3] + '...')
 
+    @classmethod
+    def _is_valid_name(cls, name) -> bool:
+        # a workspace or configuration is a single directory, its name must not lead to any other place
+        return bool(name) and name not in (os.curdir, os.pardir, _CURRENT_FILE_NAME) \
+            and not any(c in name for c in ('/', '\\', '\0'))
+
+    @classmethod
+    def _assert_valid_name(cls, name):
+        if not cls._is_valid_name(name):
+            raise WorkspaceError('"%s" is not a valid name' % name)
+
     def _assert_workspace_exists(self, workspace_name):
-        if not os.path.exists(self.get_workspace_path(workspace_name)):
+        if not self.workspace_exists(workspace_name):
             raise WorkspaceError('workspace "%s" does not exist' % workspace_name)
 
     def _assert_config_exists(self, workspace_name, config_name):
-        if not os.path.exists(self.get_config_path(workspace_name, config_name)):
+        if not self._is_valid_name(config_name) \
+                or not os.path.isdir(self.get_config_path(workspace_name, config_name)):
             raise WorkspaceError(
                 'DDP configuration "%s" of workspace "%s" does not exist' % (config_name, workspace_name))
-- 
2.43.0


From d35033996ec9c87d4fccfb1a058fe7acfac5d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:25 +0000
Subject: [PATCH 25/60] fix: do not rename onto an existing workspace or
 configuration

---
 dedop/ui/workspace_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index dda88cf..7c59f24 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -165,6 +165,8 @@ class WorkspaceManager:
         if not new_workspace_name:
             raise WorkspaceError("missing the new workspace name")
         self._assert_valid_name(new_workspace_name)
+        if os.path.exists(self.get_workspace_path(new_workspace_name)):
+            raise WorkspaceError('workspace "%s" already exists' % new_workspace_name)
         dir_path = self.get_workspace_path('')
         if os.path.exists(dir_path):
             try:
@@ -257,6 +259,9 @@ class WorkspaceManager:
         self._assert_valid_name(new_config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
         dir_path_new = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, new_config_name)
+        if os.path.exists(dir_path_new):
+            raise WorkspaceError('workspace "%s" already contains a configuration "%s"' %
+                                 (workspace_name, new_config_name))
         if os.path.exists(dir_path):
             try:
                 os.rename(dir_path, dir_path_new)
-- 
2.43.0


From aa34632a6b22759af0852f27ebdc989194db6174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:25 +0000
Subject: [PATCH 26/60] fix: directory of the current workspace of a manager
 with its own base directory

---
 dedop/ui/workspace_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 7c59f24..c01bfcc 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -97,7 +97,9 @@ class WorkspaceManager:
 
     def get_current_workspace(self) -> Workspace:
         current_workspace = _readline(os.path.join(self._workspaces_dir, _CURRENT_FILE_NAME))
-        return Workspace(None, current_workspace)
+        if not current_workspace:
+            return Workspace(None, current_workspace)
+        return Workspace(self.get_workspace_path(current_workspace), current_workspace, is_current=True)
 
     def set_current_workspace_name(self, workspace_name: str):
         # an empty name means that there is no current workspace
-- 
2.43.0


From f3649a03ba5268a97cdc3cc56cd229f0138c1b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:01 +0000
Subject: [PATCH 27/60] fix: list of workspaces names directories only and
 marks the current one

---
 dedop/ui/workspace_manager.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index c01bfcc..70a0fb8 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -187,12 +187,9 @@ class WorkspaceManager:
         return []
 
     def get_workspaces(self) -> List[str]:
-        workspaces_dir = self._workspaces_dir
-        if os.path.exists(workspaces_dir):
-            workspaces = [
-                Workspace(os.path.join(workspaces_dir, name), name).to_json_dict() if name != '.current' else None
-                for name in os.listdir(workspaces_dir)]
-            return list(filter(None, workspaces))
+        current_name = self.get_current_workspace().name
+        return [Workspace(self.get_workspace_path(name), name, is_current=name == current_name).to_json_dict()
+                for name in self.get_workspace_names()]
 
     def config_exists(self, workspace_name: str, config_name: str) -> bool:
         config_dir = self.get_config_path(workspace_name, config_name)
-- 
2.43.0


From 97a7738f330702d15d65100f9e965049182b2cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:40 +0000
Subject: [PATCH 28/60] fix: replace configuration and selection files as a
 whole

---
 dedop/ui/workspace_manager.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 70a0fb8..9da5496 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -39,12 +39,27 @@ def _readline(file_path: str) -> str or None:
 
 def _writeline(file_path: str, text: str):
     try:
-        with open(file_path, 'w') as fp:
-            fp.write(text)
+        _replace_file(file_path, text)
     except (IOError, OSError) as e:
         raise WorkspaceError(str(e))
 
 
+def _replace_file(file_path: str, text: str):
+    # the new content is complete before it gets the name of the old one,
+    # so that neither an error nor a crash leaves a truncated file behind
+    temp_path = file_path + '.tmp'
+    try:
+        with open(temp_path, 'w') as fp:
+            fp.write(text)
+            fp.flush()
+            os.fsync(fp.fileno())
+        os.replace(temp_path, file_path)
+    except BaseException:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
+        raise
+
+
 class WorkspaceManager:
     """
     Manages DeDop workspaces.
@@ -278,10 +293,9 @@ class WorkspaceManager:
 
     def write_config_file(self, workspace_name: str, config_name: str, config_file_key: str, configuration: str):
         file_path = self.get_config_file(workspace_name, config_name, config_file_key)
-        with open(file_path, 'r+') as f:
-            f.seek(0)
-            f.write(configuration)
-            f.truncate()
+        if not os.path.isfile(file_path):
+            raise FileNotFoundError(file_path)
+        _replace_file(file_path, configuration)
 
     def get_config_names(self, workspace_name: str) -> List[str]:
         self._assert_workspace_exists(workspace_name)
-- 
2.43.0


From f3c460d9c70054434d4fc49b24fbfe8f434de8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:58 +0000
Subject: [PATCH 29/60] fix: no incomplete workspace or configuration after a
 failed copy

---
 dedop/ui/workspace_manager.py | 37 +++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 9da5496..5647439 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -162,13 +162,12 @@ class WorkspaceManager:
         """
         self._assert_workspace_exists(workspace_name)
         self._assert_valid_name(new_workspace_name)
+        if os.path.exists(self.get_workspace_path(new_workspace_name)):
+            raise WorkspaceError('workspace "%s" already exists' % new_workspace_name)
         dir_path = self.get_workspace_path('')
         if os.path.exists(dir_path):
-            try:
-                shutil.copytree(os.path.join(dir_path, workspace_name),
-                                os.path.join(dir_path, new_workspace_name))
-            except (IOError, OSError) as e:
-                raise WorkspaceError(str(e))
+            self._copy_dir(os.path.join(dir_path, workspace_name),
+                           os.path.join(dir_path, new_workspace_name))
         workspace_dir = self.get_workspace_path(new_workspace_name)
         return Workspace(workspace_dir, new_workspace_name)
 
@@ -224,9 +223,14 @@ class WorkspaceManager:
         dir_path = self._ensure_dir_exists(config_dir)
         package = _CRYOSAT_CONFIG_PACKAGE_NAME if cryosat else _DEFAULT_CONFIG_PACKAGE_NAME
         # TODO (forman, 20160727): copy text files so that '\n' is replaced by OS-specific line separator
-        self._copy_resource(package, 'CHD.json', dir_path)
-        self._copy_resource(package, 'CNF.json', dir_path)
-        self._copy_resource(package, 'CST.json', dir_path)
+        try:
+            self._copy_resource(package, 'CHD.json', dir_path)
+            self._copy_resource(package, 'CNF.json', dir_path)
+            self._copy_resource(package, 'CST.json', dir_path)
+        except WorkspaceError:
+            # do not leave an incomplete configuration behind
+            shutil.rmtree(dir_path, ignore_errors=True)
+            raise
 
     def delete_config(self, workspace_name: str, config_name: str):
         """
@@ -255,11 +259,11 @@ class WorkspaceManager:
         self._assert_valid_name(new_config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
         dir_path_new = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, new_config_name)
+        if os.path.exists(dir_path_new):
+            raise WorkspaceError('workspace "%s" already contains a configuration "%s"' %
+                                 (workspace_name, new_config_name))
         if os.path.exists(dir_path):
-            try:
-                shutil.copytree(dir_path, dir_path_new)
-            except (IOError, OSError) as e:
-                raise WorkspaceError(str(e))
+            self._copy_dir(dir_path, dir_path_new)
 
     def rename_config(self, workspace_name: str, config_name: str, new_config_name: str):
         """
@@ -684,6 +688,15 @@ class WorkspaceManager:
         except (IOError, OSError) as e:
             raise WorkspaceError(str(e))
 
+    @classmethod
+    def _copy_dir(cls, dir_path, new_dir_path):
+        try:
+            shutil.copytree(dir_path, new_dir_path)
+        except (IOError, OSError) as e:
+            # do not leave an incomplete copy behind
+            shutil.rmtree(new_dir_path, ignore_errors=True)
+            raise WorkspaceError(str(e))
+
     @classmethod
     def _ensure_dir_exists(cls, dir_path):
         if not os.path.exists(dir_path):
-- 
2.43.0


From 0ba788f0f51dd74f751f31f0267ab0199bc08b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:37 +0000
Subject: [PATCH 30/60] fix: no incomplete input file after a failed copy

---
 dedop/ui/workspace_manager.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 5647439..c20d1fd 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -409,9 +409,15 @@ class WorkspaceManager:
         inputs_dir = self._ensure_dir_exists(self.get_inputs_path(workspace_name))
         with monitor.starting('adding inputs', len(input_paths)):
             for input_path in input_paths:
+                new_path = os.path.join(inputs_dir, os.path.basename(input_path))
+                temp_path = new_path + '.tmp'
                 try:
-                    shutil.copy(input_path, os.path.join(inputs_dir, os.path.basename(input_path)))
+                    # a failing copy leaves neither an incomplete input nor a damaged older one behind
+                    shutil.copy(input_path, temp_path)
+                    os.replace(temp_path, new_path)
                 except (IOError, OSError) as e:
+                    if os.path.exists(temp_path):
+                        os.remove(temp_path)
                     raise WorkspaceError(str(e))
                 monitor.progress(1)
 
-- 
2.43.0


From 58942327033c2bb1f80f271cc5b5be59b7aa3ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:37 +0000
Subject: [PATCH 31/60] fix: a file that matches several patterns is listed
 once

---
 dedop/ui/workspace_manager.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index c20d1fd..18e9833 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -678,12 +678,7 @@ class WorkspaceManager:
         if isinstance(pattern, str):
             fn_list = [fn for fn in fn_list if fnmatch.fnmatch(fn, pattern)]
         elif pattern:
-            new_fn_list = []
-            for fn in fn_list:
-                for p in pattern:
-                    if fnmatch.fnmatch(fn, p):
-                        new_fn_list.append(fn)
-            fn_list = new_fn_list
+            fn_list = [fn for fn in fn_list if any(fnmatch.fnmatch(fn, p) for p in pattern)]
         return sorted(fn_list)
 
     @classmethod
-- 
2.43.0


From 642c9c1b7100b443536e97b589fee75843c231f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:57 +0000
Subject: [PATCH 32/60] fix: remove inputs of the workspace only

---
 dedop/ui/workspace_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 18e9833..de10f68 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -427,6 +427,8 @@ class WorkspaceManager:
         :param input_names: name of input files to be removed
         :param monitor: to monitor the progress
         """
+        for input_name in input_names:
+            self._assert_valid_name(input_name)
         input_paths = [self.get_inputs_path(workspace_name, input_name) for input_name in input_names]
         with monitor.starting('removing inputs', len(input_paths)):
             for input_path in input_paths:
@@ -719,7 +721,7 @@ class WorkspaceManager:
     def _is_valid_name(cls, name) -> bool:
         # a workspace or configuration is a single directory, its name must not lead to any other place
         return bool(name) and name not in (os.curdir, os.pardir, _CURRENT_FILE_NAME) \
-            and not any(c in name for c in ('/', '\\', '\0'))
+            and not any(c in name for c in ('/', '\\', '\0', '\n'))
 
     @classmethod
     def _assert_valid_name(cls, name):
-- 
2.43.0


From 5d2c9aae2916008aa0e6a1b106e6bb62fefeee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:17 +0000
Subject: [PATCH 33/60] fix: second product of the output compare command

---
 dedop/cli/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/cli/main.py b/dedop/cli/main.py
index 93fb027..a2f29e8 100644
--- a/dedop/cli/main.py
+++ b/dedop/cli/main.py
@@ -958,8 +958,8 @@ class ManageOutputsCommand(SubCommandCommand):
             if not os.path.exists(l1b_path_1):
                 raise CommandError('First L1B product not found: %s' % l1b_path_1)
 
-            l1b_filename_2 = command_args.l1b_filename_2
-            if os.path.dirname(l1b_filename_1):
+            l1b_filename_2 = command_args.l1b_filename_2 or l1b_filename_1
+            if os.path.dirname(l1b_filename_2):
                 l1b_path_2 = os.path.abspath(l1b_filename_2)
             else:
                 if not workspace_name_2:
@@ -972,7 +972,7 @@ class ManageOutputsCommand(SubCommandCommand):
                 raise CommandError('Second L1B product not found: %s' % l1b_path_2)
 
             if os.path.samefile(l1b_path_1, l1b_path_2):
-                print('warning: comparing "%s" with itself')
+                print('warning: comparing "%s" with itself' % l1b_path_1)
 
             _WORKSPACE_MANAGER.compare_l1b_products(workspace_name_1, l1b_path_1, l1b_path_2)
         except WorkspaceError as error:
-- 
2.43.0


From 03180210ec84d657ff43e17ba792d6a3d46251f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:33 +0000
Subject: [PATCH 34/60] fix: notebooks of products with an apostrophe in their
 path

---
 dedop/ui/workspace_manager.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index de10f68..d1d93ad 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -507,7 +507,7 @@ class WorkspaceManager:
     def inspect_l1b_product(self, workspace_name: str, l1b_path: str):
         template_data = pkgutil.get_data('dedop.ui.data.notebooks', 'inspect-template.ipynb')
         notebook_json = template_data.decode("utf-8") \
-            .replace('__L1B_FILE_PATH__', repr(l1b_path).replace('\\', '\\\\'))
+            .replace('__L1B_FILE_PATH__', self._notebook_literal(l1b_path))
         product_name = ntpath.basename(l1b_path)
         return self._launch_notebook_from_template(workspace_name,
                                                    'inspect-%s' % product_name,
@@ -518,8 +518,8 @@ class WorkspaceManager:
     def compare_l1b_products(self, workspace_name, l1b_path_1: str, l1b_path_2: str):
         template_data = pkgutil.get_data('dedop.ui.data.notebooks', 'compare-template.ipynb')
         notebook_json = template_data.decode("utf-8") \
-            .replace('__L1B_FILE_PATH_1__', repr(l1b_path_1).replace('\\', '\\\\')) \
-            .replace('__L1B_FILE_PATH_2__', repr(l1b_path_2).replace('\\', '\\\\'))
+            .replace('__L1B_FILE_PATH_1__', self._notebook_literal(l1b_path_1)) \
+            .replace('__L1B_FILE_PATH_2__', self._notebook_literal(l1b_path_2))
         product1_name = ntpath.basename(l1b_path_1)
         product2_name = ntpath.basename(l1b_path_2)
         return self._launch_notebook_from_template(workspace_name,
@@ -528,6 +528,11 @@ class WorkspaceManager:
                                                    'compare - [%s] [%s]' % (self._limit_title(l1b_path_1, 30),
                                                                             self._limit_title(l1b_path_2, 30),))
 
+    @classmethod
+    def _notebook_literal(cls, path: str) -> str:
+        # a Python string literal, inside of a JSON string
+        return json.dumps(repr(path))[1:-1]
+
     def _launch_notebook_from_template(self,
                                        workspace_name: str,
                                        notebook_basename: str,
-- 
2.43.0


From 17eab80524e017d3a25ea58d66fa42d9f43842bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:33 +0000
Subject: [PATCH 35/60] fix: monitors of tasks without an amount of work

---
 dedop/util/monitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedop/util/monitor.py b/dedop/util/monitor.py
index ab8317b..6fda0c6 100644
--- a/dedop/util/monitor.py
+++ b/dedop/util/monitor.py
@@ -195,7 +195,7 @@ class ChildMonitor(Monitor):
         self._parent_monitor.progress(work=parent_work, msg=self._label)
 
     def progress(self, work: float = None, msg: str = None):
-        parent_work = self._partial_work * (work / self._total_work) if work is not None else None
+        parent_work = self._partial_work * (work / self._total_work) if work is not None and self._total_work else None
         parent_msg = '%s: %s' % (self._label, msg) if msg is not None else None
         self._parent_monitor.progress(work=parent_work, msg=parent_msg)
 
@@ -299,7 +299,7 @@ class ConsoleMonitor(Monitor):
 
     def _calc_percentage(self):
         return round(100. * self._worked / self._total_work) \
-            if self._worked is not None and self._total_work is not None else None
+            if self._worked is not None and self._total_work else None
 
     def cancel(self):
         self._cancelled = True
-- 
2.43.0


From a61caba7b17b30f0ccec67a1544395bd2380fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:33 +0000
Subject: [PATCH 36/60] fix: saving some of the configuration files keeps the
 others

---
 dedop/webapi/websocket.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dedop/webapi/websocket.py b/dedop/webapi/websocket.py
index e3596c9..0c8e62e 100644
--- a/dedop/webapi/websocket.py
+++ b/dedop/webapi/websocket.py
@@ -117,12 +117,11 @@ class WebSocketService:
         }
 
     def save_configs(self, workspace_name: str, config_name: str, configurations: dict):
-        chd = json.dumps(configurations.get("chd"), indent=4, separators=(',', ': '), sort_keys=True)
-        self.workspace_manager.write_config_file(workspace_name, config_name, "CHD", chd)
-        cnf = json.dumps(configurations.get("cnf"), indent=4, separators=(',', ': '), sort_keys=True)
-        self.workspace_manager.write_config_file(workspace_name, config_name, "CNF", cnf)
-        cst = json.dumps(configurations.get("cst"), indent=4, separators=(',', ': '), sort_keys=True)
-        self.workspace_manager.write_config_file(workspace_name, config_name, "CST", cst)
+        for key in ("chd", "cnf", "cst"):
+            # keep the files for which no configuration is given
+            if configurations.get(key) is not None:
+                text = json.dumps(configurations[key], indent=4, separators=(',', ': '), sort_keys=True)
+                self.workspace_manager.write_config_file(workspace_name, config_name, key.upper(), text)
 
     def process(self, process_name: str, workspace_name: str, config_name: str, output_path, l1a_file: str,
                 monitor: Monitor):
-- 
2.43.0


From c472f154e6faaa061f5f86fdf21007551e540a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:14 +0000
Subject: [PATCH 37/60] fix: version of the characterisation file of new
 CryoSat configurations

---
 dedop/ui/data/cryosat_config/CHD.json | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dedop/ui/data/cryosat_config/CHD.json b/dedop/ui/data/cryosat_config/CHD.json
index b19c160..07fd2cf 100644
--- a/dedop/ui/data/cryosat_config/CHD.json
+++ b/dedop/ui/data/cryosat_config/CHD.json
@@ -15,10 +15,19 @@
                 "comment": "initial version",
                 "parameters": [],
                 "version": 0
+            },
+            {
+                "comment": "added new parameters for update to sigma-0 algorithm",
+                "parameters": [
+                    ["ratio_trc_ku_chd", "+", "required for sigma-0 scaling factor"],
+                    ["fft_step_freq_ku_chd", "+", "required for sigma-0 scaling factor"],
+                    ["ptr_width_chd", "+", "required for sigma-0 scaling factor"]
+                ],
+                "version": 1
             }
         ],
         "description": "DeDop Characterisation File",
-        "version": 0
+        "version": 1
     },
     "alt_freq_multiplier_chd": {
         "description": "Factor to convert from USO frequency to altimeter frequency",
@@ -81,4 +90,4 @@
         "description": "Ratio of the losses between the transmission/Reception and the Calibration paths - Ku band",
         "units": "dB"
     }
-}
\ No newline at end of file
+}
\ No newline at end of file
-- 
2.43.0


From 0010e82dbcd91c73ce37896f4751e228369b502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:31 +0000
Subject: [PATCH 38/60] fix: restore the line endings of the azimuth processing
 module

---
 .../proc/sar/algorithms/azimuth_processing.py | 460 +++++++++---------
 1 file changed, 230 insertions(+), 230 deletions(-)

diff --git a/dedop/proc/sar/algorithms/azimuth_processing.py b/dedop/proc/sar/algorithms/azimuth_processing.py
index ba2adc0..c2bfd0e 100644
--- a/dedop/proc/sar/algorithms/azimuth_processing.py
+++ b/dedop/proc/sar/algorithms/azimuth_processing.py
@@ -1,230 +1,230 @@
-from math import cos
-import numpy as np
-from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
-from dedop.conf.enums import AzimuthWindowingMethod, AzimuthProcessingMethod
-from dedop.model import L1AProcessingData
-from dedop.util.parameter import Parameter
-from numpy.linalg import norm
-
-from ..base_algorithm import BaseAlgorithm
-
-
-@Parameter('flag_azimuth_processing_method', data_type=AzimuthProcessingMethod)
-class AzimuthProcessingAlgorithm(BaseAlgorithm):
-    """
-    class for performing the Azimuth Processing Algorithm
-    """
-    def __init__(self, chd: CharacterisationFile, cst: ConstantsFile, cnf: ConfigurationFile):
-        super().__init__(chd, cst, cnf)
-
-        self.beams_focused = None
-
-    def __call__(self, packet: L1AProcessingData, wavelength_ku: float) -> None:
-        """
-        Executes the azimuth processing algorithm
-
-        :param packet: The L1AProcessingData instance
-        :param wavelength_ku: The signal wavelength
-        """
-        self.beams_focused = np.empty(
-            packet.waveform_cor_sar.shape,
-            dtype=np.complex128
-        )
-
-        window = self.construct_azimuth_window(
-            self.cnf.flag_azimuth_windowing_method,
-            width=self.cnf.azimuth_window_width
-        )
-        windowed_wfm = packet.waveform_cor_sar * window[:, np.newaxis]
-
-        # azimuth processing with approx. method
-        if self.cnf.flag_azimuth_processing_method == AzimuthProcessingMethod.approximate:
-            self.compute_approximate_method(packet, windowed_wfm, wavelength_ku)
-        # azimuth processing with exact method
-        elif self.cnf.flag_azimuth_processing_method == AzimuthProcessingMethod.exact:
-            self.compute_exact_method(packet, windowed_wfm, wavelength_ku)
-        else:
-            raise ValueError("unknown azimuth processing method: {}".format(self.cnf.flag_azimuth_processing_method))
-
-    def construct_azimuth_window(self, window_shape: AzimuthWindowingMethod, width: int=64):
-        window = np.zeros((self.chd.n_ku_pulses_burst,), dtype=np.float64)
-
-        centre = self.chd.n_ku_pulses_burst // 2
-
-        start = centre - (width // 2)
-        end = start + width
-
-        if window_shape == AzimuthWindowingMethod.disabled:
-            window[:] = 1.
-        elif window_shape == AzimuthWindowingMethod.boxcar:
-            window[start:end] = 1.
-        elif window_shape == AzimuthWindowingMethod.hamming:
-            n = np.arange(width)
-            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
-        elif window_shape == AzimuthWindowingMethod.hanning:
-            n = np.arange(width)
-            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
-        else:
-            raise NotImplementedError(
-                "Unsupported Azimuth Windowing Method: {}".format(window_shape)
-            )
-
-        return window
-
-    def compute_approximate_method(self, packet: L1AProcessingData, windowed_wfm: np.ndarray,
-                                   wavelength_ku: float) -> None:
-        """
-        Azimuth processing approximate method
-
-        the azimuth processing is done only once, using the beam
-        angle phase of the beam pointing to the nadir (considered
-        the central beam)
-
-        :param packet: L1AProcessingData instance
-        :param windowed_wfm: the input waveform with windowing applied
-        :param wavelength_ku: signal wavelength
-        """
-        # find the nadir beam angle
-        nadir_beam_angle = self.get_nadir_beam_angle(packet)
-
-        # use the nadir beam angle to compute the phase shift
-        wfm_phase_shift = self.compute_phase_shift(
-            packet, windowed_wfm, nadir_beam_angle, wavelength_ku
-        )
-        # compute the azimuth FFTs
-        wfm_fft_azimuth = self.compute_fft_azimuth_dimension(
-            wfm_phase_shift
-        )
-
-        # the result is the focused beams. If the list of beam angles
-        # is increasing in size, then the useful first beams are in the
-        # output of the waveform_fft_azimuth (because the first part of the
-        # waveform_fft_azimuth beams point to surfaces that are before the
-        # first surface). This way we will always have the beams in the same
-        # position as the corresponding beam angle in the beam angle/surfaces
-        # seen lists.
-        if packet.beam_angles_trend == 1:
-            beams_offset = self.chd.n_ku_pulses_burst -\
-                           len(packet.beam_angles_list)
-        else:
-            beams_offset = 0
-        copy_end = self.chd.n_ku_pulses_burst - beams_offset
-        self.beams_focused[:copy_end, :] = wfm_fft_azimuth[beams_offset:, :]
-
-    def compute_exact_method(self, packet: L1AProcessingData, windowed_wfm: np.ndarray, wavelength_ku: float) -> None:
-        """
-        Azimuth processing exact method
-
-        The azimuth processing is performed for each surface seen,
-        and the beam angle at each surface is used to compute the phase
-        shift. The central beam of the result of the FFT is used, and
-        placed in the array position corresponding to the beam angle
-        from which it was computed.
-
-        :param packet: L1AProcessingData
-        :param windowed_wfm: the input waveform with windowing applied
-        :param wavelength_ku: signal wavelength
-        """
-        for beam_index, beam_angle_value in enumerate(packet.beam_angles_list):
-            # calculate the shape shift based upon the current
-            # beam angle
-            wfm_phase_shift = self.compute_phase_shift(
-                packet, windowed_wfm, beam_angle_value, wavelength_ku
-            )
-            # calculate the FFT of the current beam
-            wfm_fft_azimuth = self.compute_fft_azimuth_dimension(
-                wfm_phase_shift
-            )
-            # insert the central beam of the result into the same
-            # position as the beam angle in the beam angle/surface seen
-            # lists (this way the beams can be easily matched to surfaces)
-            self.beams_focused[beam_index, :] =\
-                wfm_fft_azimuth[self.chd.n_ku_pulses_burst // 2, :]
-
-    def compute_phase_shift(self, packet: L1AProcessingData, windowed_wfm: np.ndarray, beam_angle: float,
-                            wavelength_ku: float) -> np.ndarray:
-        """
-        For each pulse of the burst, a phase (based on the given beam
-        angle value) is applied to the waveform
-
-        :param packet: the current L1AProcessingData
-        :param windowed_wfm: the input waveform with windowing applied
-        :param beam_angle: the input beam angle
-        :param wavelength_ku: the signal wavelength
-
-        :return waveform_phase_shift: the phase shifted waveform
-        """
-        # create empty output array
-        waveform_phase_shift = np.empty(
-            windowed_wfm.shape,
-            dtype=np.complex128
-        )
-
-        for pulse_index in range(self.chd.n_ku_pulses_burst):
-            beam_angle_phase = np.exp(-2j * 2. * self.cst.pi / wavelength_ku *
-                                      norm(packet.vel_sat_sar) * cos(beam_angle) *
-                                      packet.pri_sar_pre_dat * pulse_index)
-            waveform_phase_shift[pulse_index, :] = \
-                beam_angle_phase * windowed_wfm[pulse_index, :]
-
-        return waveform_phase_shift
-
-    def compute_fft_azimuth_dimension(self, waveform_phase_shift: np.ndarray) -> np.ndarray:
-        """
-        :param waveform_phase_shift: the phase shifted waveform to transform
-
-        :return waveform_fft_azimuth: The shifted FFT along the azimuth direction
-        """
-        # compute the FFT along the azimuth dimension,
-        # and apply orthogonal normalization to the result
-        out_fft = np.fft.fft(
-            waveform_phase_shift,
-            axis=0, norm='ortho'
-        )
-        # return the shifted FFT values
-        return np.fft.fftshift(
-            out_fft, axes=0
-        )
-
-    def get_nadir_beam_angle(self, packet: L1AProcessingData) -> float:
-        """
-        :param packet: The L1AProcessingData to be processed
-
-        :return: nadir_beam_angle
-        """
-        beam_angles_list_size = len(packet.beam_angles_list)
-        half_pulses = self.chd.n_ku_pulses_burst // 2
-
-        # if the beam angles list is not full (64), and the trend indicates
-        # that the size is increasing, the nadir beam is first of the last 'half_pulses'
-        # (or the first if are less than 'half_pulses' elements
-        if packet.beam_angles_trend == 1:
-            # if there aren't enough elements, pick the first one
-            if beam_angles_list_size < half_pulses:
-                nadir_beam_index = 0
-            # otherwise, get first of the last 'half_pulses'
-            else:
-                nadir_beam_index = -half_pulses
-
-        # if the mbeam angles list is not full (64), and the trend indicates
-        # that the size is decreasing, the nadir beam is the 33rd (or the last
-        # if there are less than 33 elements)
-        elif packet.beam_angles_trend == -1:
-            # if there aren't enough elements, pick the last one
-            if beam_angles_list_size <= half_pulses:
-                nadir_beam_index = -1
-            # otherwise, get the last of the first 'half_pulses'
-            else:
-                nadir_beam_index = half_pulses
-        # if the beam angles list is full, the nadir beam is the 33rd one
-        elif packet.beam_angles_trend == 0:
-            nadir_beam_index = half_pulses
-        # check for invalid trend directions
-        else:
-            raise Exception(
-                "Beam Angle Trend must be in {-1, 0, 1}"
-            )
-
-        # after the index has been selected, get the corresponding beam angle
-        nadir_beam_angle = packet.beam_angles_list[nadir_beam_index]
-        return nadir_beam_angle
+from math import cos
+import numpy as np
+from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
+from dedop.conf.enums import AzimuthWindowingMethod, AzimuthProcessingMethod
+from dedop.model import L1AProcessingData
+from dedop.util.parameter import Parameter
+from numpy.linalg import norm
+
+from ..base_algorithm import BaseAlgorithm
+
+
+@Parameter('flag_azimuth_processing_method', data_type=AzimuthProcessingMethod)
+class AzimuthProcessingAlgorithm(BaseAlgorithm):
+    """
+    class for performing the Azimuth Processing Algorithm
+    """
+    def __init__(self, chd: CharacterisationFile, cst: ConstantsFile, cnf: ConfigurationFile):
+        super().__init__(chd, cst, cnf)
+
+        self.beams_focused = None
+
+    def __call__(self, packet: L1AProcessingData, wavelength_ku: float) -> None:
+        """
+        Executes the azimuth processing algorithm
+
+        :param packet: The L1AProcessingData instance
+        :param wavelength_ku: The signal wavelength
+        """
+        self.beams_focused = np.empty(
+            packet.waveform_cor_sar.shape,
+            dtype=np.complex128
+        )
+
+        window = self.construct_azimuth_window(
+            self.cnf.flag_azimuth_windowing_method,
+            width=self.cnf.azimuth_window_width
+        )
+        windowed_wfm = packet.waveform_cor_sar * window[:, np.newaxis]
+
+        # azimuth processing with approx. method
+        if self.cnf.flag_azimuth_processing_method == AzimuthProcessingMethod.approximate:
+            self.compute_approximate_method(packet, windowed_wfm, wavelength_ku)
+        # azimuth processing with exact method
+        elif self.cnf.flag_azimuth_processing_method == AzimuthProcessingMethod.exact:
+            self.compute_exact_method(packet, windowed_wfm, wavelength_ku)
+        else:
+            raise ValueError("unknown azimuth processing method: {}".format(self.cnf.flag_azimuth_processing_method))
+
+    def construct_azimuth_window(self, window_shape: AzimuthWindowingMethod, width: int=64):
+        window = np.zeros((self.chd.n_ku_pulses_burst,), dtype=np.float64)
+
+        centre = self.chd.n_ku_pulses_burst // 2
+
+        start = centre - (width // 2)
+        end = start + width
+
+        if window_shape == AzimuthWindowingMethod.disabled:
+            window[:] = 1.
+        elif window_shape == AzimuthWindowingMethod.boxcar:
+            window[start:end] = 1.
+        elif window_shape == AzimuthWindowingMethod.hamming:
+            n = np.arange(width)
+            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
+        elif window_shape == AzimuthWindowingMethod.hanning:
+            n = np.arange(width)
+            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
+        else:
+            raise NotImplementedError(
+                "Unsupported Azimuth Windowing Method: {}".format(window_shape)
+            )
+
+        return window
+
+    def compute_approximate_method(self, packet: L1AProcessingData, windowed_wfm: np.ndarray,
+                                   wavelength_ku: float) -> None:
+        """
+        Azimuth processing approximate method
+
+        the azimuth processing is done only once, using the beam
+        angle phase of the beam pointing to the nadir (considered
+        the central beam)
+
+        :param packet: L1AProcessingData instance
+        :param windowed_wfm: the input waveform with windowing applied
+        :param wavelength_ku: signal wavelength
+        """
+        # find the nadir beam angle
+        nadir_beam_angle = self.get_nadir_beam_angle(packet)
+
+        # use the nadir beam angle to compute the phase shift
+        wfm_phase_shift = self.compute_phase_shift(
+            packet, windowed_wfm, nadir_beam_angle, wavelength_ku
+        )
+        # compute the azimuth FFTs
+        wfm_fft_azimuth = self.compute_fft_azimuth_dimension(
+            wfm_phase_shift
+        )
+
+        # the result is the focused beams. If the list of beam angles
+        # is increasing in size, then the useful first beams are in the
+        # output of the waveform_fft_azimuth (because the first part of the
+        # waveform_fft_azimuth beams point to surfaces that are before the
+        # first surface). This way we will always have the beams in the same
+        # position as the corresponding beam angle in the beam angle/surfaces
+        # seen lists.
+        if packet.beam_angles_trend == 1:
+            beams_offset = self.chd.n_ku_pulses_burst -\
+                           len(packet.beam_angles_list)
+        else:
+            beams_offset = 0
+        copy_end = self.chd.n_ku_pulses_burst - beams_offset
+        self.beams_focused[:copy_end, :] = wfm_fft_azimuth[beams_offset:, :]
+
+    def compute_exact_method(self, packet: L1AProcessingData, windowed_wfm: np.ndarray, wavelength_ku: float) -> None:
+        """
+        Azimuth processing exact method
+
+        The azimuth processing is performed for each surface seen,
+        and the beam angle at each surface is used to compute the phase
+        shift. The central beam of the result of the FFT is used, and
+        placed in the array position corresponding to the beam angle
+        from which it was computed.
+
+        :param packet: L1AProcessingData
+        :param windowed_wfm: the input waveform with windowing applied
+        :param wavelength_ku: signal wavelength
+        """
+        for beam_index, beam_angle_value in enumerate(packet.beam_angles_list):
+            # calculate the shape shift based upon the current
+            # beam angle
+            wfm_phase_shift = self.compute_phase_shift(
+                packet, windowed_wfm, beam_angle_value, wavelength_ku
+            )
+            # calculate the FFT of the current beam
+            wfm_fft_azimuth = self.compute_fft_azimuth_dimension(
+                wfm_phase_shift
+            )
+            # insert the central beam of the result into the same
+            # position as the beam angle in the beam angle/surface seen
+            # lists (this way the beams can be easily matched to surfaces)
+            self.beams_focused[beam_index, :] =\
+                wfm_fft_azimuth[self.chd.n_ku_pulses_burst // 2, :]
+
+    def compute_phase_shift(self, packet: L1AProcessingData, windowed_wfm: np.ndarray, beam_angle: float,
+                            wavelength_ku: float) -> np.ndarray:
+        """
+        For each pulse of the burst, a phase (based on the given beam
+        angle value) is applied to the waveform
+
+        :param packet: the current L1AProcessingData
+        :param windowed_wfm: the input waveform with windowing applied
+        :param beam_angle: the input beam angle
+        :param wavelength_ku: the signal wavelength
+
+        :return waveform_phase_shift: the phase shifted waveform
+        """
+        # create empty output array
+        waveform_phase_shift = np.empty(
+            windowed_wfm.shape,
+            dtype=np.complex128
+        )
+
+        for pulse_index in range(self.chd.n_ku_pulses_burst):
+            beam_angle_phase = np.exp(-2j * 2. * self.cst.pi / wavelength_ku *
+                                      norm(packet.vel_sat_sar) * cos(beam_angle) *
+                                      packet.pri_sar_pre_dat * pulse_index)
+            waveform_phase_shift[pulse_index, :] = \
+                beam_angle_phase * windowed_wfm[pulse_index, :]
+
+        return waveform_phase_shift
+
+    def compute_fft_azimuth_dimension(self, waveform_phase_shift: np.ndarray) -> np.ndarray:
+        """
+        :param waveform_phase_shift: the phase shifted waveform to transform
+
+        :return waveform_fft_azimuth: The shifted FFT along the azimuth direction
+        """
+        # compute the FFT along the azimuth dimension,
+        # and apply orthogonal normalization to the result
+        out_fft = np.fft.fft(
+            waveform_phase_shift,
+            axis=0, norm='ortho'
+        )
+        # return the shifted FFT values
+        return np.fft.fftshift(
+            out_fft, axes=0
+        )
+
+    def get_nadir_beam_angle(self, packet: L1AProcessingData) -> float:
+        """
+        :param packet: The L1AProcessingData to be processed
+
+        :return: nadir_beam_angle
+        """
+        beam_angles_list_size = len(packet.beam_angles_list)
+        half_pulses = self.chd.n_ku_pulses_burst // 2
+
+        # if the beam angles list is not full (64), and the trend indicates
+        # that the size is increasing, the nadir beam is first of the last 'half_pulses'
+        # (or the first if are less than 'half_pulses' elements
+        if packet.beam_angles_trend == 1:
+            # if there aren't enough elements, pick the first one
+            if beam_angles_list_size < half_pulses:
+                nadir_beam_index = 0
+            # otherwise, get first of the last 'half_pulses'
+            else:
+                nadir_beam_index = -half_pulses
+
+        # if the mbeam angles list is not full (64), and the trend indicates
+        # that the size is decreasing, the nadir beam is the 33rd (or the last
+        # if there are less than 33 elements)
+        elif packet.beam_angles_trend == -1:
+            # if there aren't enough elements, pick the last one
+            if beam_angles_list_size <= half_pulses:
+                nadir_beam_index = -1
+            # otherwise, get the last of the first 'half_pulses'
+            else:
+                nadir_beam_index = half_pulses
+        # if the beam angles list is full, the nadir beam is the 33rd one
+        elif packet.beam_angles_trend == 0:
+            nadir_beam_index = half_pulses
+        # check for invalid trend directions
+        else:
+            raise Exception(
+                "Beam Angle Trend must be in {-1, 0, 1}"
+            )
+
+        # after the index has been selected, get the corresponding beam angle
+        nadir_beam_angle = packet.beam_angles_list[nadir_beam_index]
+        return nadir_beam_angle
-- 
2.43.0


From e4fa497369ec23baa65a037d4c6327b09abb4404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:25 +0000
Subject: [PATCH 39/60] fix: refuse records beyond the end of the L1A file

Reading the record after the last one of a file whose length is a multiple
of the block size returned a record of the previous block.
---
 dedop/data/input/l1a/l1a_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index 0ee139f..37ec52b 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -164,6 +164,8 @@ class L1ADataset(InputDataset):
         return self._final_index - self._start_index
 
     def __getitem__(self, index: int) -> L1AProcessingData:
+        if not 0 <= index < self._get_data_size():
+            raise IndexError("record index out of range: {}".format(index))
         # convert scale factor to linear value
         agc = self.get_value(L1AVariables.agc_ku_l1a_echo_sar_ku, index)
         scale_factor = pow(10., -agc / 20.)
-- 
2.43.0


From a4cf0473194a09f1e04cb9a0d6ea2d7019b8f7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:19 +0000
Subject: [PATCH 40/60] fix: UTC of surfaces inside a leap second

---
 dedop/proc/sar/algorithms/surface_locations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/surface_locations.py b/dedop/proc/sar/algorithms/surface_locations.py
index 661a925..dfa4b0e 100644
--- a/dedop/proc/sar/algorithms/surface_locations.py
+++ b/dedop/proc/sar/algorithms/surface_locations.py
@@ -126,7 +126,8 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
         self.prev_tai = isp_record.time_sar_ku
         self.prev_utc_days = isp_record.days
         self.prev_utc_secs = isp_record.seconds
-        self.curr_day_length = self.cst.sec_in_day
+        # a day may be one leap second longer
+        self.curr_day_length = self.cst.sec_in_day + 1
 
     def focus_surface(self, surface_to_move: SurfaceData, previous_surface: SurfaceData) -> None:
         """
@@ -330,5 +331,8 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
         self.prev_utc_secs = isp_prev.seconds
         self.curr_day_length = self.cst.sec_in_day +\
             (isp_curr.leap_secs_since_2000 - isp_prev.leap_secs_since_2000)
+        if np.all(isp_curr.days == isp_prev.days):
+            # no midnight in between, but maybe in a leap second
+            self.curr_day_length = self.cst.sec_in_day + 1
 
         return True
-- 
2.43.0


From 90809e44383bfa5ace5fd24136d55f1744c79b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:05 +0000
Subject: [PATCH 41/60] fix: pointing angles of the L1BS product are in degrees

---
 dedop/data/output/l1bs_writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index e55cb48..ae9888d 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -670,9 +670,9 @@ class L1BSWriter(NetCDFWriter):
             meas_x_pos_l1bs_echo_sar_ku=surface_location_data.x_surf,
             meas_y_pos_l1bs_echo_sar_ku=surface_location_data.y_surf,
             meas_z_pos_l1bs_echo_sar_ku=surface_location_data.z_surf,
-            roll_sat_pointing_l1bs_echo_sar_ku=surface_location_data.roll_sat,
-            pitch_sat_pointing_l1bs_echo_sar_ku=surface_location_data.pitch_sat,
-            yaw_sat_pointing_l1bs_echo_sar_ku=surface_location_data.yaw_sat,
+            roll_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.roll_sat),
+            pitch_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.pitch_sat),
+            yaw_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.yaw_sat),
             roll_sral_mispointing_l1bs_echo_sar_ku=closest_burst.roll_sral_mispointing,
             pitch_sral_mispointing_l1bs_echo_sar_ku=closest_burst.pitch_sral_mispointing,
             yaw_sral_mispointing_l1bs_echo_sar_ku=closest_burst.yaw_sral_mispointing,
-- 
2.43.0


From 7a6663c3519bccfc4ce7146183bf58521a930d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:20 +0000
Subject: [PATCH 42/60] fix: surface type of the L1BS product

---
 dedop/data/output/l1bs_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index ae9888d..1e7c97b 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -657,7 +657,7 @@ class L1BSWriter(NetCDFWriter):
             UTC_sec_l1bs_echo_sar_ku=utc_secs,
             lat_l1bs_echo_sar_ku=degrees(surface_location_data.lat_surf),
             lon_l1bs_echo_sar_ku=degrees(surface_location_data.lon_surf),
-            surf_type_l1bs_echo_sar_ku=surface_location_data.surface_type.value,
+            surf_type_l1bs_echo_sar_ku=closest_burst.surf_type,
             records_count_l1bs_echo_sar_ku=surface_location_data.surface_counter,
             alt_l1bs_echo_sar_ku=surface_location_data.alt_sat,
             orb_alt_rate_l1bs_echo_sar_ku=surface_location_data.alt_rate_sat,
-- 
2.43.0


From c8606de8c56510867ca87fb6ac6d057889404c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:58 +0000
Subject: [PATCH 43/60] fix: no beam angles beyond the end of the stack in the
 products

---
 dedop/data/output/l1b_writer.py  | 8 +++++---
 dedop/data/output/l1bs_writer.py | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dedop/data/output/l1b_writer.py b/dedop/data/output/l1b_writer.py
index 04176d4..2301477 100644
--- a/dedop/data/output/l1b_writer.py
+++ b/dedop/data/output/l1b_writer.py
@@ -923,8 +923,9 @@ class L1BWriterExtended(NetCDFWriter):
             stdev_stack_l1b_echo_sar_ku=surface_location_data.stack_std,
             skew_stack_l1b_echo_sar_ku=surface_location_data.stack_skewness,
             kurt_stack_l1b_echo_sar_ku=surface_location_data.stack_kurtosis,
-            beam_ang_l1b_echo_sar_ku=surface_location_data.beam_angles_surf,
-            look_ang_l1b_echo_sar_ku=surface_location_data.look_angles_surf,
+            # the angle arrays are padded to the number of looks, only the beams of the stack have an angle
+            beam_ang_l1b_echo_sar_ku=surface_location_data.beam_angles_surf[:surface_location_data.data_stack_size],
+            look_ang_l1b_echo_sar_ku=surface_location_data.look_angles_surf[:surface_location_data.data_stack_size],
             beam_form_l1b_echo_sar_ku=None,
             i2q2_meas_ku_l1b_echo_sar_ku=surface_location_data.waveform_multilooked/scale_factor,
             i2q2_scale_factor_l1b_echo_sar_ku=scale_factor,
@@ -1637,7 +1638,8 @@ class L1BWriter(NetCDFWriter):
             stdev_stack_l1b_echo_sar_ku=surface_location_data.stack_std,
             skew_stack_l1b_echo_sar_ku=surface_location_data.stack_skewness,
             kurt_stack_l1b_echo_sar_ku=surface_location_data.stack_kurtosis,
-            beam_ang_l1b_echo_sar_ku=-surface_location_data.look_angles_surf,
+            # the angle array is padded to the number of looks, only the beams of the stack have an angle
+            beam_ang_l1b_echo_sar_ku=-surface_location_data.look_angles_surf[:surface_location_data.data_stack_size],
             beam_form_l1b_echo_sar_ku=None,
             i2q2_meas_ku_l1b_echo_sar_ku=surface_location_data.waveform_multilooked #*scale_factor
         )
\ No newline at end of file
diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 1e7c97b..0510975 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -692,7 +692,9 @@ class L1BSWriter(NetCDFWriter):
             stdev_stack_l1bs_echo_sar_ku=surface_location_data.stack_std,
             skew_stack_l1bs_echo_sar_ku=surface_location_data.stack_skewness,
             kurt_stack_l1bs_echo_sar_ku=surface_location_data.stack_kurtosis,
-            beam_ang_l1bs_echo_sar_ku=surface_location_data.beam_angles_start_stop,
+            # the angle array is padded to the number of looks, only the beams of the stack have an angle
+            beam_ang_l1bs_echo_sar_ku=surface_location_data.beam_angles_start_stop[
+                :surface_location_data.n_beams_start_stop],
             beam_form_l1bs_echo_sar_ku=None,
             burst_start_ind_l1bs_echo_sar_ku=surface_location_data.start_burst_index,
             burst_stop_ind_l1bs_echo_sar_ku=surface_location_data.stop_burst_index,
-- 
2.43.0


From dfdf35a3fb03906552532d76315e9f35560e4f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:17 +0000
Subject: [PATCH 44/60] fix: names with a path are refused by every operation
 on inputs, outputs and configuration files

---
 dedop/ui/workspace_manager.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index d1d93ad..aa5be1b 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -296,6 +296,8 @@ class WorkspaceManager:
         return config_json, sorted(config_order, key=str.lower)
 
     def write_config_file(self, workspace_name: str, config_name: str, config_file_key: str, configuration: str):
+        self._assert_valid_name(workspace_name)
+        self._assert_valid_name(config_name)
         file_path = self.get_config_file(workspace_name, config_name, config_file_key)
         if not os.path.isfile(file_path):
             raise FileNotFoundError(file_path)
@@ -406,6 +408,7 @@ class WorkspaceManager:
         :param input_paths: path to the input files to be added
         :param monitor: to monitor the progress
         """
+        self._assert_valid_name(workspace_name)
         inputs_dir = self._ensure_dir_exists(self.get_inputs_path(workspace_name))
         with monitor.starting('adding inputs', len(input_paths)):
             for input_path in input_paths:
@@ -427,6 +430,7 @@ class WorkspaceManager:
         :param input_names: name of input files to be removed
         :param monitor: to monitor the progress
         """
+        self._assert_valid_name(workspace_name)
         for input_name in input_names:
             self._assert_valid_name(input_name)
         input_paths = [self.get_inputs_path(workspace_name, input_name) for input_name in input_names]
@@ -471,6 +475,8 @@ class WorkspaceManager:
         :param workspace_name: the workspace name in which the output files are located
         :param config_name: the config name with which the output files were created
         """
+        self._assert_valid_name(workspace_name)
+        self._assert_valid_name(config_name)
         output_dir = self.get_outputs_path(workspace_name, config_name)
         if not os.path.exists(output_dir):
             raise WorkspaceError('output directory does not exist')
@@ -538,6 +544,7 @@ class WorkspaceManager:
                                        notebook_basename: str,
                                        notebook_json: str,
                                        title: str):
+        self._assert_valid_name(workspace_name)
         notebook_dir = self.get_workspace_path(workspace_name, 'notebooks')
         if not os.path.exists(notebook_dir):
             try:
-- 
2.43.0


From 1a0c14b49d2091eb29ef1cae004c2c52c537b05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:11 +0000
Subject: [PATCH 45/60] fix: global attributes with numbers can be sent by the
 web service

---
 dedop/webapi/websocket.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedop/webapi/websocket.py b/dedop/webapi/websocket.py
index 0c8e62e..2b1b2f6 100644
--- a/dedop/webapi/websocket.py
+++ b/dedop/webapi/websocket.py
@@ -180,6 +180,8 @@ class WebSocketService:
     @staticmethod
     def get_global_attributes(input_file_path) -> dict:
         ds = Dataset(input_file_path)
-        global_attributes = ds.__dict__
+        # numbers and arrays of numbers as plain Python objects, so that they can be sent as JSON
+        global_attributes = {name: value.tolist() if hasattr(value, 'tolist') else value
+                             for name, value in ds.__dict__.items()}
         ds.close()
         return global_attributes
-- 
2.43.0


From a0471bf1cc8fdcfcfc5eed1fda81c798d125cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:12 +0000
Subject: [PATCH 46/60] fix: a notebook that cannot be written is reported

---
 dedop/ui/workspace_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index aa5be1b..93bf8bb 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -550,7 +550,7 @@ class WorkspaceManager:
             try:
                 os.mkdir(notebook_dir)
             except (IOError, OSError) as e:
-                return 60, str(e)
+                raise WorkspaceError(str(e))
 
         index = 0
         while True:
-- 
2.43.0


From d374f8926f50dd990c489a2ef63b7cf4eb792f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:12 +0000
Subject: [PATCH 47/60] fix: notebooks of workspaces with braces in their name
 can be opened

---
 dedop/ui/workspace_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 93bf8bb..c0b8a4c 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -609,7 +609,7 @@ class WorkspaceManager:
             elif shutil.which("xterm"):
                 launch_notebook_command_template = 'xterm  -T "{title}" -e \'{command}\''
             else:
-                launch_notebook_command_template = notebook_command_with_prefix
+                launch_notebook_command_template = '{command}'
                 launch_notebook_in_new_terminal = False
 
         command_file = ''
-- 
2.43.0


From d1b3d4061fe9ead142aa0a2fa6516551c928c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:18 +0000
Subject: [PATCH 48/60] fix: functions of a user configuration see its
 variables and imports

---
 dedop/util/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dedop/util/config.py b/dedop/util/config.py
index 7f472b4..07affb6 100644
--- a/dedop/util/config.py
+++ b/dedop/util/config.py
@@ -76,10 +76,11 @@ def read_python_config(file):
 
     fp = open(file, 'r') if isinstance(file, str) else file
     try:
+        # one namespace for globals and locals, as for any Python script: functions see the variables of the file
         config = {}
         code = compile(fp.read(), file if isinstance(file, str) else '<NO FILE>', 'exec')
-        exec(code, None, config)
-        return config
+        exec(code, config)
+        return {name: value for name, value in config.items() if name != '__builtins__'}
     finally:
         if fp is not file:
             fp.close()
-- 
2.43.0


From fe80bda51bf5e6ae1024325ac0821463dfd23bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 49/60] fix: images of a variable show that variable, not the
 waveform

---
 dedop/ui/inspect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 97a6f6a..7c288ae 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -374,7 +374,7 @@ class L1bProductInspectorPlots:
         zmin = zmin if zmin else var_data.min()
         zmax = zmax if zmax else var_data.max()
         plt.figure(figsize=(10, 10))
-        plt.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
+        plt.imshow(var_data, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
         # TODO (forman, 20160709): show labels in units of dimension variables
         plt.xlabel('%s (index)' % var.dimensions[1])
         plt.ylabel('%s (index)' % var.dimensions[0])
@@ -587,7 +587,7 @@ class L1bProductInspectorPlots:
             # fig.axes.remove(ax2)
             ax2.remove()
 
-        im = ax3.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto',
+        im = ax3.imshow(var_data, interpolation='nearest', aspect='auto',
                         vmin=zmin, vmax=zmax, cmap=cmap)
         if has_xind:
             ax3.axvline(x=xind)
-- 
2.43.0


From 0145a02cc4bb77e1dba01f8c366af8995509cade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 50/60] fix: images of a variable use the limits given

---
 dedop/ui/inspect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 7c288ae..8d34a11 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -355,7 +355,7 @@ class L1bProductInspectorPlots:
                         name_options.extend(var_names)
                 name_options = sorted(name_options)
                 # TODO (forman, 20160709): add sliders for zmin, zmax
-                interact(self._plot_im, z_name=name_options, zmin=fixed(zmax), zmax=fixed(zmax), cmap=fixed(cmap))
+                interact(self._plot_im, z_name=name_options, zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
             else:
                 raise ValueError('name must be given')
         else:
@@ -532,11 +532,11 @@ class L1bProductInspectorPlots:
                 # TODO (forman, 20160709): add sliders for zmin, zmax
                 interact(self._plot_im_line, z_name=widget_var,
                          xind=widget_xind, yind=widget_yind,
-                         zmin=fixed(zmax), zmax=fixed(zmax), cmap=fixed(cmap))
+                         zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
         else:
             if not z:
                 raise ValueError('z_name must be given')
-            self._plot_im_line(z, zmin=zmin, zmax=zmin, xind=xind, yind=yind, cmap=cmap)
+            self._plot_im_line(z, zmin=zmin, zmax=zmax, xind=xind, yind=yind, cmap=cmap)
 
     def _plot_im_line(self, z_name, zmin=None, zmax=None, xind=None, yind=None, cmap='jet'):
         assert z_name
-- 
2.43.0


From e3d7de6682f99f147f36a1317b6a6dfa7181e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 51/60] fix: a limit of zero is used in plots

---
 dedop/ui/compare.py | 20 ++++++++++----------
 dedop/ui/inspect.py | 16 ++++++++--------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/dedop/ui/compare.py b/dedop/ui/compare.py
index 4e92a34..30fb38d 100644
--- a/dedop/ui/compare.py
+++ b/dedop/ui/compare.py
@@ -201,8 +201,8 @@ class L1bProductComparatorPlots:
             print('warning: cannot save locations figure with output format "%s"' % self._figure_writer.output_format)
 
     def waveforms_delta_im(self, vmin=None, vmax=None, cmap='RdBu_r'):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         plt.figure(figsize=(10, 10))
         plt.imshow(self._comparator.waveforms_delta, interpolation='nearest', aspect='auto', vmin=vmin, vmax=vmax,
                    cmap=cmap)
@@ -227,8 +227,8 @@ class L1bProductComparatorPlots:
         :param color2: Color of the second histogram
         :param alpha: Alpha value for histograms
         """
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -267,8 +267,8 @@ class L1bProductComparatorPlots:
         :param bins: Number of bins
         :param log: Show logarithms of bin counts
         """
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -290,8 +290,8 @@ class L1bProductComparatorPlots:
             self.savefig("fig-waveforms_delta-hist.png")
 
     def waveforms_scatter(self, vmin=None, vmax=None):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         x = self._comparator.p1.waveform
@@ -310,8 +310,8 @@ class L1bProductComparatorPlots:
             self.savefig("fig-waveforms-scatter.png")
 
     def waveforms_hexbin(self, vmin=None, vmax=None, cmap='Blues', log=True):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         x = self._comparator.p1.waveform.flatten()
diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 8d34a11..cf5d4bb 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -210,8 +210,8 @@ class L1bProductInspectorPlots:
             print('warning: cannot save locations figure with output format "%s"' % self._figure_writer.output_format)
 
     def waveform_im(self, vmin=None, vmax=None, cmap='jet'):
-        vmin = vmin if vmin else self._inspector.waveform_range[0]
-        vmax = vmax if vmax else self._inspector.waveform_range[1]
+        vmin = vmin if vmin is not None else self._inspector.waveform_range[0]
+        vmax = vmax if vmax is not None else self._inspector.waveform_range[1]
         plt.figure(figsize=(10, 10))
         plt.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto', vmin=vmin, vmax=vmax, cmap=cmap)
         plt.xlabel('Echo Sample Index')
@@ -294,8 +294,8 @@ class L1bProductInspectorPlots:
         :param log: Show logarithms of bin counts
         :param color: Color of the histogram bars, e.g. 'green'
         """
-        vmin = vmin if vmin else self._inspector.waveform_range[0]
-        vmax = vmax if vmax else self._inspector.waveform_range[1]
+        vmin = vmin if vmin is not None else self._inspector.waveform_range[0]
+        vmax = vmax if vmax is not None else self._inspector.waveform_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -371,8 +371,8 @@ class L1bProductInspectorPlots:
             return
         var_data = var[:]
 
-        zmin = zmin if zmin else var_data.min()
-        zmax = zmax if zmax else var_data.max()
+        zmin = zmin if zmin is not None else var_data.min()
+        zmax = zmax if zmax is not None else var_data.max()
         plt.figure(figsize=(10, 10))
         plt.imshow(var_data, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
         # TODO (forman, 20160709): show labels in units of dimension variables
@@ -550,8 +550,8 @@ class L1bProductInspectorPlots:
 
         var_data = z_var[:]
 
-        zmin = zmin if zmin else var_data.min()
-        zmax = zmax if zmax else var_data.max()
+        zmin = zmin if zmin is not None else var_data.min()
+        zmax = zmax if zmax is not None else var_data.max()
 
         x_title = '%s (index)' % z_var.dimensions[1]
         y_title = '%s (index)' % z_var.dimensions[0]
-- 
2.43.0


From d8157e70075ced90c5f7353bd2adeb7629a4f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:39 +0000
Subject: [PATCH 52/60] fix: im_line draws if variable and both indices are
 given

---
 dedop/ui/inspect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index cf5d4bb..e830ccf 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -533,6 +533,8 @@ class L1bProductInspectorPlots:
                 interact(self._plot_im_line, z_name=widget_var,
                          xind=widget_xind, yind=widget_yind,
                          zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
+            else:
+                self._plot_im_line(z, zmin=zmin, zmax=zmax, xind=xind, yind=yind, cmap=cmap)
         else:
             if not z:
                 raise ValueError('z_name must be given')
-- 
2.43.0


From a8fea478b3d0b00993557e00679bc39e72404b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:41 +0000
Subject: [PATCH 53/60] fix: the pitch is in degrees in the centre of gravity
 correction

---
 dedop/data/input/l1a/l1a_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index 37ec52b..64d90d7 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -172,7 +172,7 @@ class L1ADataset(InputDataset):
         # construct waveform
         waveform = (self.get_value(L1AVariables.i_meas_ku_l1a_echo_sar_ku, index) +
                     1j * self.get_value(L1AVariables.q_meas_ku_l1a_echo_sar_ku, index)) / scale_factor
-        zcog = np.cos(self.get_value(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku, index)) *\
+        zcog = np.cos(radians(self.get_value(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku, index))) *\
                self.get_value(L1AVariables.cog_cor_l1a_echo_sar_ku, index)
         range = self.get_value(L1AVariables.range_ku_l1a_echo_sar_ku, index) + zcog
 
-- 
2.43.0


From a4f6fa28a99afe754f86e1748d040130c4b2bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:11 +0000
Subject: [PATCH 54/60] fix: report a region of interest without records as an
 input without records

---
 dedop/data/input/l1a/l1a_dataset.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index 64d90d7..49b0437 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -119,8 +119,13 @@ class L1ADataset(InputDataset):
                 )
             self._roi_filter = roi_filter
             indexes = np.argwhere(roi_filter)
-            self._start_index = indexes.min()
-            self._final_index = indexes.max() + 1
+            if indexes.size > 0:
+                self._start_index = indexes.min()
+                self._final_index = indexes.max() + 1
+            else:
+                # no record lies inside of the region of interest
+                self._start_index = 0
+                self._final_index = 0
         else:
             self._roi_filter = None
             self._start_index = 0
-- 
2.43.0


From 5a82727f5881720e8dc92e4c20f0ead54a014db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:11 +0000
Subject: [PATCH 55/60] fix: close an input file that cannot be used

---
 dedop/data/input/l1a/l1a_dataset.py | 9 +++++++++
 dedop/data/input/netcdf_reader.py   | 7 ++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index 49b0437..a31dc84 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -96,6 +96,15 @@ class L1ADataset(InputDataset):
 
         self._file_path = filename
 
+        try:
+            self._find_records(dset)
+        except Exception:
+            # do not leave the file open if it cannot be used
+            dset.close()
+            raise
+
+    def _find_records(self, dset: NetCDFReader) -> None:
+        """find the records that lie inside of the region of interest"""
         if self._roi_enabled():
             lats = dset.get_variable(L1AVariables.lat_l1a_echo_sar_ku)[:]
             lons = dset.get_variable(L1AVariables.lon_l1a_echo_sar_ku)[:]
diff --git a/dedop/data/input/netcdf_reader.py b/dedop/data/input/netcdf_reader.py
index c566725..a54e005 100644
--- a/dedop/data/input/netcdf_reader.py
+++ b/dedop/data/input/netcdf_reader.py
@@ -31,7 +31,12 @@ class NetCDFReader:
         for varname in self.variables:
             name = varname.value
 
-            var = self._doc.variables[name]
+            try:
+                var = self._doc.variables[name]
+            except KeyError:
+                # do not leave the file open if it cannot be used
+                self._doc.close()
+                raise
             var.set_auto_mask(False)
 
             # size = list(var.shape)
-- 
2.43.0


From e147456937312f738ff73578767a59ea26f47be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:21 +0000
Subject: [PATCH 56/60] fix: close the files of a run even if its first message
 cannot be printed

---
 dedop/proc/sar/processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 5c8d063..2a45a65 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -112,11 +112,11 @@ class L1BProcessor(BaseProcessor):
         """
         self.l1a_file = L1ADataset(l1a_file, chd=self.chd, cst=self.cst, cnf=self.cnf)
 
-        print('processing %s using "%s"' % (self.l1a_file.file_path, self.name))
-
         t0 = time.time()
 
         try:
+            print('processing %s using "%s"' % (self.l1a_file.file_path, self.name))
+
             with monitor.starting('processing', total_work=len(self.l1a_file)):
                 status = self._process(l1a_file, monitor)
         finally:
-- 
2.43.0


From 12aff2cedfa50a412b98d043a1f5c9e668940162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:14 +0000
Subject: [PATCH 57/60] fix: a tapered azimuth window of a single pulse is not
 NaN

---
 dedop/proc/sar/algorithms/azimuth_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/azimuth_processing.py b/dedop/proc/sar/algorithms/azimuth_processing.py
index c2bfd0e..f69f9c1 100644
--- a/dedop/proc/sar/algorithms/azimuth_processing.py
+++ b/dedop/proc/sar/algorithms/azimuth_processing.py
@@ -56,7 +56,8 @@ class AzimuthProcessingAlgorithm(BaseAlgorithm):
 
         if window_shape == AzimuthWindowingMethod.disabled:
             window[:] = 1.
-        elif window_shape == AzimuthWindowingMethod.boxcar:
+        elif window_shape == AzimuthWindowingMethod.boxcar or width == 1:
+            # (the tapered windows are not defined for a single pulse)
             window[start:end] = 1.
         elif window_shape == AzimuthWindowingMethod.hamming:
             n = np.arange(width)
-- 
2.43.0


From f1aba25a707fc0cae0e0a3cf8c6bc83a26e903d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:37 +0000
Subject: [PATCH 58/60] fix: the doppler angle of a climbing satellite has the
 opposite sign of that of a sinking one

---
 dedop/model/l1a_processing_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/model/l1a_processing_data.py b/dedop/model/l1a_processing_data.py
index 6294ff5..bb2ebc2 100644
--- a/dedop/model/l1a_processing_data.py
+++ b/dedop/model/l1a_processing_data.py
@@ -923,5 +923,6 @@ class L1AProcessingData:
         # angle between v and m
         self.doppler_angle_sar_sat = angle_between(v, m)
 
-        if self.doppler_angle_sar_sat < self.cst.pi / 2:
+        # negative if the satellite approaches the surface
+        if angle_between(v, n) < self.cst.pi / 2:
             self.doppler_angle_sar_sat *= -1
\ No newline at end of file
-- 
2.43.0


From 79438b63d5c7883c27ea95ad81679468eefaa3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:40 +0000
Subject: [PATCH 59/60] fix: carry the platform reference of the input over to
 the L1B product, too

---
 dedop/proc/sar/processor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 2a45a65..3eb78bc 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -330,6 +330,7 @@ class L1BProcessor(BaseProcessor):
             xref_altimeter_ltm_ku_cal2=l1a_globals.xref_altimeter_ltm_ku_cal2,
             xref_altimeter_ltm_c_cal2=l1a_globals.xref_altimeter_ltm_c_cal2,
             xref_altimeter_characterisation=l1a_globals.xref_altimeter_characterisation,
+            xref_platform=l1a_globals.xref_platform,
             xref_time_correlation=l1a_globals.xref_time_correlation,
             semi_major_ellipsoid_axis=self.cst.semi_major_axis,
             ellipsoid_flattening=self.cst.flat_coeff,
-- 
2.43.0


From f92885fcc6442c170c6015a273109039245b8b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:00 +0000
Subject: [PATCH 60/60] fix: the approximate azimuth method used the wrong
 beams where a burst sees few surfaces

At the ends of a segment and in short segments the Doppler beams were taken from the
wrong position of the transform, and the echo of the surface was lost.
---
 .../proc/sar/algorithms/azimuth_processing.py | 33 ++++++++-----------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/dedop/proc/sar/algorithms/azimuth_processing.py b/dedop/proc/sar/algorithms/azimuth_processing.py
index f69f9c1..fb83825 100644
--- a/dedop/proc/sar/algorithms/azimuth_processing.py
+++ b/dedop/proc/sar/algorithms/azimuth_processing.py
@@ -86,7 +86,8 @@ class AzimuthProcessingAlgorithm(BaseAlgorithm):
         :param wavelength_ku: signal wavelength
         """
         # find the nadir beam angle
-        nadir_beam_angle = self.get_nadir_beam_angle(packet)
+        nadir_beam_index = self.get_nadir_beam_index(packet)
+        nadir_beam_angle = packet.beam_angles_list[nadir_beam_index]
 
         # use the nadir beam angle to compute the phase shift
         wfm_phase_shift = self.compute_phase_shift(
@@ -97,18 +98,12 @@ class AzimuthProcessingAlgorithm(BaseAlgorithm):
             wfm_phase_shift
         )
 
-        # the result is the focused beams. If the list of beam angles
-        # is increasing in size, then the useful first beams are in the
-        # output of the waveform_fft_azimuth (because the first part of the
-        # waveform_fft_azimuth beams point to surfaces that are before the
-        # first surface). This way we will always have the beams in the same
-        # position as the corresponding beam angle in the beam angle/surfaces
-        # seen lists.
-        if packet.beam_angles_trend == 1:
-            beams_offset = self.chd.n_ku_pulses_burst -\
-                           len(packet.beam_angles_list)
-        else:
-            beams_offset = 0
+        # the result is the focused beams. The central one points to the
+        # surface that was used as the nadir one; the others are moved along
+        # with it, so that the beams are in the same position as the
+        # corresponding beam angle in the beam angle/surfaces seen lists
+        # (however few or many surfaces are seen).
+        beams_offset = self.chd.n_ku_pulses_burst // 2 - nadir_beam_index
         copy_end = self.chd.n_ku_pulses_burst - beams_offset
         self.beams_focused[:copy_end, :] = wfm_fft_azimuth[beams_offset:, :]
 
@@ -187,11 +182,11 @@ class AzimuthProcessingAlgorithm(BaseAlgorithm):
             out_fft, axes=0
         )
 
-    def get_nadir_beam_angle(self, packet: L1AProcessingData) -> float:
+    def get_nadir_beam_index(self, packet: L1AProcessingData) -> int:
         """
         :param packet: The L1AProcessingData to be processed
 
-        :return: nadir_beam_angle
+        :return: the position of the nadir beam in the list of beam angles
         """
         beam_angles_list_size = len(packet.beam_angles_list)
         half_pulses = self.chd.n_ku_pulses_burst // 2
@@ -205,7 +200,7 @@ class AzimuthProcessingAlgorithm(BaseAlgorithm):
                 nadir_beam_index = 0
             # otherwise, get first of the last 'half_pulses'
             else:
-                nadir_beam_index = -half_pulses
+                nadir_beam_index = beam_angles_list_size - half_pulses
 
         # if the mbeam angles list is not full (64), and the trend indicates
         # that the size is decreasing, the nadir beam is the 33rd (or the last
@@ -213,7 +208,7 @@ class AzimuthProcessingAlgorithm(BaseAlgorithm):
         elif packet.beam_angles_trend == -1:
             # if there aren't enough elements, pick the last one
             if beam_angles_list_size <= half_pulses:
-                nadir_beam_index = -1
+                nadir_beam_index = beam_angles_list_size - 1
             # otherwise, get the last of the first 'half_pulses'
             else:
                 nadir_beam_index = half_pulses
@@ -226,6 +221,4 @@ class AzimuthProcessingAlgorithm(BaseAlgorithm):
                 "Beam Angle Trend must be in {-1, 0, 1}"
             )
 
-        # after the index has been selected, get the corresponding beam angle
-        nadir_beam_angle = packet.beam_angles_list[nadir_beam_index]
-        return nadir_beam_angle
+        return nadir_beam_index
-- 
2.43.0

