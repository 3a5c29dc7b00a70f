SPECIFICATION MSpec
