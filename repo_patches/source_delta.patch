From 8f1a8ac95386518131d004d04d93f2efa1a1053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 01/10] fix: reject a NaN conversion ratio

Both comparisons of is_bad_src_ratio () are false for a NaN, so it was taken
as a valid ratio by every entry point.
---
 src/common.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common.h b/src/common.h
index c5b7d90..4d587ad 100644
--- a/src/common.h
+++ b/src/common.h
@@ -244,7 +244,8 @@ fmod_one (double x)
 
 static inline int
 is_bad_src_ratio (double ratio)
-{	return (ratio < (1.0 / SRC_MAX_RATIO) || ratio > (1.0 * SRC_MAX_RATIO)) ;
+{	/* Written so that a NaN is bad as well. */
+	return ! (ratio >= (1.0 / SRC_MAX_RATIO) && ratio <= (1.0 * SRC_MAX_RATIO)) ;
 } /* is_bad_src_ratio */
 
 
-- 
2.43.0


From bb4bae012bc6dd953ae87da464de1b1ca3eed647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 02/10] fix: report a channel count below one instead of
 aborting

src_new (), src_callback_new () and src_simple () ran into an assert for a
channel count of zero or less, for which there is SRC_ERR_BAD_CHANNEL_COUNT.
---
 src/samplerate.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 6a51f27..2978d88 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -491,6 +491,13 @@ psrc_set_converter (int converter_type, int channels, int *error)
 {
 	SRC_ERROR temp_error;
 	SRC_STATE *state ;
+
+	if (channels < 1)
+	{	if (error)
+			*error = SRC_ERR_BAD_CHANNEL_COUNT ;
+		return NULL ;
+		} ;
+
 	switch (converter_type)
 	{
 #ifdef ENABLE_SINC_BEST_CONVERTER
-- 
2.43.0


From e9edb844281cd23048f2318e875d2f5477fbefea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 03/10] fix: return SRC_ERR_BAD_DATA from src_simple () for a
 NULL SRC_DATA

It was dereferenced before src_process () could check it.
---
 src/samplerate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 2978d88..2043a5a 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -412,6 +412,9 @@ src_simple (SRC_DATA *src_data, int converter, int channels)
 {	SRC_STATE	*src_state ;
 	int 		error ;
 
+	if (src_data == NULL)
+		return SRC_ERR_BAD_DATA ;
+
 	if ((src_state = src_new (converter, channels, &error)) == NULL)
 		return error ;
 
-- 
2.43.0


From 98682bb5197fda83d263db5c9a73b856eff2250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 04/10] fix: linear converter reading before a one frame input
 buffer

With one frame of input the loop for the samples before the first input frame
was left at once, and the main loop then read the frame before data_in [0].
For longer input the condition is never true, before and after this change.
---
 src/src_linear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_linear.c b/src/src_linear.c
index 43a0fd4..bdbbde3 100644
--- a/src/src_linear.c
+++ b/src/src_linear.c
@@ -85,7 +85,7 @@ linear_vari_process (SRC_STATE *state, SRC_DATA *data)
 	/* Calculate samples before first sample in input array. */
 	while (input_index < 1.0 && priv->out_gen < priv->out_count)
 	{
-		if (priv->in_used + state->channels * (1.0 + input_index) >= priv->in_count)
+		if (priv->in_used + state->channels * input_index >= priv->in_count)
 			break ;
 
 		if (priv->out_count > 0 && fabs (state->last_ratio - data->src_ratio) > SRC_MIN_RATIO_DIFF)
-- 
2.43.0


From b74fd9e61e58676d93aea2b10ff4061419a6c71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 05/10] fix: sinc converters failing on 2^31 and more input
 samples

The number of samples left was truncated to an int before the minimum was
taken, which gave a negative or a too small length.
---
 src/src_sinc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 716c4a4..d61bd72 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1189,7 +1189,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 		len = MAX (filter->b_len - filter->b_current - half_filter_chan_len, 0) ;
 		} ;
 
-	len = MIN ((int) (filter->in_count - filter->in_used), len) ;
+	len = (int) MIN (filter->in_count - filter->in_used, (long) len) ;
 	len -= (len % channels) ;
 
 	if (len < 0 || filter->b_end + len > filter->b_len)
-- 
2.43.0


From 797dbacdcf13ac8cd4e51bbf512887d7ebe94988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 06/10] fix: sinc tail lost when the flushing call has no input
 pointer

prepare_data () returned early for a NULL data_in even when end_of_input was
set, so the last frames of a stream were never generated when it was ended
with data_in == NULL and input_frames == 0, or by a callback which returns zero
and sets the data pointer to NULL.
---
 src/src_sinc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index d61bd72..75bf600 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1161,7 +1161,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 	if (filter->b_real_end >= 0)
 		return SRC_ERR_NO_ERROR ;	/* Should be terminating. Just return. */
 
-	if (data->data_in == NULL)
+	if (data->data_in == NULL && ! data->end_of_input)
 		return SRC_ERR_NO_ERROR ;
 
 	if (filter->b_current == 0)
@@ -1195,7 +1195,8 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 	if (len < 0 || filter->b_end + len > filter->b_len)
 		return SRC_ERR_SINC_PREPARE_DATA_BAD_LEN ;
 
-	memcpy (filter->buffer + filter->b_end, data->data_in + filter->in_used,
+	if (len > 0)
+		memcpy (filter->buffer + filter->b_end, data->data_in + filter->in_used,
 						len * sizeof (filter->buffer [0])) ;
 
 	filter->b_end += len ;
-- 
2.43.0


From a2b9bd20c1f9351df6a242273e0e51ae43789fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 07/10] fix: sinc converters stopping early for a ratio near
 1/256

The buffer was bigger than three half filters by one sample instead of by whole
frames. With more than one channel and a ratio of 1/256 the first load was
exactly half a filter, which is not enough to go on, so src_process () returned
with no output and most of the input unused, and src_simple () failed. Have
some whole frames to spare.
---
 src/src_sinc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 75bf600..dac0e14 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -242,8 +242,8 @@ sinc_filter_new (int converter_type, int channels)
 
 		priv->b_len = 3 * (int) psf_lrint ((priv->coeff_half_len + 2.0) / priv->index_inc * SRC_MAX_RATIO + 1) ;
 		priv->b_len = MAX (priv->b_len, 4096) ;
+		priv->b_len += 5 ; // There is a <= check against samples_in_hand requiring a buffer bigger than the calculation above
 		priv->b_len *= channels ;
-		priv->b_len += 1 ; // There is a <= check against samples_in_hand requiring a buffer bigger than the calculation above
 
 
 		priv->buffer = (float *) calloc (priv->b_len + channels, sizeof (float)) ;
-- 
2.43.0


From 9d88b8dcd571c7bde07e60d8355dd1bb5ec1d737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 08/10] fix: sinc end of input handling with up to two half
 filters in the buffer

The zeros were added after the last input as soon as less than two half filters
of data were left. For a ratio below about 1/192 there is no room for enough
zeros behind that, so the end of the output was missing. After a change to a
much smaller ratio there may also be less than half a filter before the current
position, and the memmove () started before the buffer. Wait until no more than
half a filter is left, at which point there is room on both sides.
---
 src/src_sinc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index dac0e14..165c7be 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1203,7 +1203,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 	filter->in_used += len ;
 
 	if (filter->in_used == filter->in_count &&
-			filter->b_end - filter->b_current < 2 * half_filter_chan_len && data->end_of_input)
+			filter->b_end - filter->b_current <= half_filter_chan_len && data->end_of_input)
 	{	/* Handle the case where all data in the current buffer has been
 		** consumed and this is the last buffer.
 		*/
-- 
2.43.0


From 013a843802f0bc87a6824a0ef3bb029c7baf6b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 09/10] fix: endless loop in src_callback_read () for data
 after the end of input

When the callback function returned zero once and data later on, without a
src_reset () in between, a sinc converter neither used the data nor generated
output, and src_callback_read () never returned. Report the error that there is
for this.
---
 src/samplerate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/samplerate.c b/src/samplerate.c
index 2043a5a..e1e6b7d 100644
--- a/src/samplerate.c
+++ b/src/samplerate.c
@@ -221,6 +221,12 @@ src_callback_read (SRC_STATE *state, double src_ratio, long frames, float *data)
 
 		if (src_data.end_of_input == SRC_TRUE && src_data.output_frames_gen == 0)
 			break ;
+
+		/* After its end of input a converter does not take more data without a reset. */
+		if (src_data.input_frames > 0 && src_data.input_frames_used == 0 && src_data.output_frames_gen == 0)
+		{	error = SRC_ERR_BAD_SINC_STATE ;
+			break ;
+			} ;
 		} ;
 
 	state->saved_data = src_data.data_in ;
-- 
2.43.0


From 3fa9deda62f32f2498dcfe5db58c4fb2e940ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:15 +0000
Subject: [PATCH 10/10] fix: sinc zero padding at the end of input not a whole
 number of frames

With more than five channels the padding ended inside a frame, and when the
ratio changed during the flush the last frame of the filter was read across
the end of the data (assertion failure, or stale data in a release build).
---
 src/src_sinc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src_sinc.c b/src/src_sinc.c
index 165c7be..85bc506 100644
--- a/src/src_sinc.c
+++ b/src/src_sinc.c
@@ -1208,7 +1208,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 		** consumed and this is the last buffer.
 		*/
 
-		if (filter->b_len - filter->b_end < half_filter_chan_len + 5)
+		if (filter->b_len - filter->b_end < half_filter_chan_len + 5 * channels)
 		{	/* If necessary, move data down to the start of the buffer. */
 			len = filter->b_end - filter->b_current ;
 			memmove (filter->buffer, filter->buffer + filter->b_current - half_filter_chan_len,
@@ -1219,7 +1219,7 @@ prepare_data (SINC_FILTER *filter, int channels, SRC_DATA *data, int half_filter
 			} ;
 
 		filter->b_real_end = filter->b_end ;
-		len = half_filter_chan_len + 5 ;
+		len = half_filter_chan_len + 5 * channels ;
 
 		if (len < 0 || filter->b_end + len > filter->b_len)
 			len = filter->b_len - filter->b_end ;
-- 
2.43.0

