import numpy as np


def get_image_info_dtype(path_len, image_id_len=None, wcs_len=None, ext_len=None,
                         extra_dtype=None):
    dt = [('image_path', 'U%d' % path_len)]
    dt += [('image_ext', 'i2' if ext_len is None else 'U%d' % ext_len)]
    for n in ('weight', 'bmask', 'bkg', 'seg'):
        dt += [(n + '_path', 'U%d' % path_len), (n + '_ext', 'i2')]
    dt += [('image_id', 'i8'), ('image_flags', 'i8'), ('magzp', 'f4'),
           ('scale', 'f4'), ('position_offset', 'f8')]
    if wcs_len:
        dt += [('wcs', 'U%d' % wcs_len)]
    return dt + list(extra_dtype or [])


def get_image_info_struct(nimage, path_len, image_id_len=None, wcs_len=None,
                          ext_len=None, extra_dtype=None):
    data = np.zeros(nimage, dtype=get_image_info_dtype(
        path_len, image_id_len, wcs_len, ext_len, extra_dtype))
    data['scale'] = 1.0
    return data
