"""Shared description of the full-reference metric classes."""

FR = {
    "PSNR": "viqa.fr_metrics.psnr:PSNR", "RMSE": "viqa.fr_metrics.rmse:RMSE", "SSIM": "viqa.fr_metrics.ssim:SSIM",
    "UQI": "viqa.fr_metrics.uqi:UQI", "MSSSIM": "viqa.fr_metrics.msssim:MSSSIM", "FSIM": "viqa.fr_metrics.fsim:FSIM",
    "VIFp": "viqa.fr_metrics.vif:VIFp", "VSI": "viqa.fr_metrics.vsi:VSI", "GSM": "viqa.fr_metrics.gsm:GSM",
    "MAD": "viqa.fr_metrics.mad:MAD",
}
NR = {"SNR": "viqa.nr_metrics.snr:SNR", "CNR": "viqa.nr_metrics.cnr:CNR"}
CHROMATIC = ("PSNR", "RMSE", "SSIM", "MSSSIM", "FSIM", "VIFp", "VSI")
