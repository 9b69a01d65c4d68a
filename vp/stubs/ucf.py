"""Stands in for ucflib, which is not installed here: an archive as an
ordered dictionary of its files, whose type is kept apart."""
import zipfile
from collections import OrderedDict


class UCF(OrderedDict):
    def __init__(self, filename=None, mimetype=None):
        super(UCF, self).__init__()
        self.mimetype = mimetype
        if filename is None:
            return
        with zipfile.ZipFile(filename, "r") as z:
            for info in z.infolist():
                data = z.read(info)
                if info.filename == "mimetype":
                    self.mimetype = data
                else:
                    self[info.filename] = data

    def save(self, filename):
        with zipfile.ZipFile(filename, "w", zipfile.ZIP_DEFLATED) as z:
            if self.mimetype is not None:
                z.writestr(zipfile.ZipInfo("mimetype"), self.mimetype,
                           zipfile.ZIP_STORED)
            for name in self:
                z.writestr(name, self[name])
