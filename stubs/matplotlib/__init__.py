"""A stand-in for matplotlib: it draws nothing and records what it was asked
to draw (the file named by HLL_PLOT_LOG gets one JSON object per run)."""
