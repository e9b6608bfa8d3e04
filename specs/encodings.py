"""Any encoding of the same segmentation gives the same result; lengths must agree."""
from segeval.window.pk import pk
from segeval.window.windowdiff import window_diff
from segeval.similarity.boundary import boundary_similarity
from segeval.similarity.segmentation import segmentation_similarity
from segeval.similarity import boundary_confusion_matrix, boundary_statistics
from segeval.util import SegmentationMetricError
from segeval.format import (convert_masses_to_positions, convert_nltk_to_masses,
                            convert_positions_to_masses, boundary_string_from_masses)


def ok(h, r):
    return len(h) == len(r) and len(h) > 0


# -- window metrics: everything reduces to position labels
def positions_from_nltk(s):
    return convert_masses_to_positions(convert_nltk_to_masses(s))


def string_from_positions(s):
    return boundary_string_from_masses(convert_positions_to_masses(s))


def string_from_nltk(s):
    return boundary_string_from_masses(convert_nltk_to_masses(s))


@check('C04', abstract=['mass2pos', 'nltk2mass'])
def pk_mass_code(h: MASSES, r: MASSES, w: WINDOW):
    if not h or not r or not convert_masses_to_positions(h) or not convert_masses_to_positions(r):
        return None
    return pk(h, r, window_size=w, boundary_format='mass', return_parts=True)


def pk_mass_want(h, r, w):
    if not h or not r or not convert_masses_to_positions(h) or not convert_masses_to_positions(r):
        return None
    h, r = convert_masses_to_positions(h), convert_masses_to_positions(r)
    if len(h) != len(r):
        raise SegmentationMetricError('')
    return pk(h, r, window_size=w, boundary_format='position', return_parts=True)


@check('C04', abstract=['mass2pos', 'nltk2mass'])
def pk_nltk_code(h: NLTK, r: NLTK, w: WINDOW):
    if not h or not r or not positions_from_nltk(h) or not positions_from_nltk(r):
        return None
    return pk(h, r, window_size=w, boundary_format='nltk', return_parts=True)


def pk_nltk_want(h, r, w):
    if not h or not r or not positions_from_nltk(h) or not positions_from_nltk(r):
        return None
    h, r = positions_from_nltk(h), positions_from_nltk(r)
    if len(h) != len(r):
        raise SegmentationMetricError('')
    return pk(h, r, window_size=w, boundary_format='position', return_parts=True)


@check('C04', abstract=['mass2pos', 'nltk2mass'])
def wd_mass_code(h: MASSES, r: MASSES, w: WINDOW):
    if not h or not r or not convert_masses_to_positions(h) or not convert_masses_to_positions(r):
        return None
    return window_diff(h, r, window_size=w, boundary_format='mass', return_parts=True)


def wd_mass_want(h, r, w):
    if not h or not r or not convert_masses_to_positions(h) or not convert_masses_to_positions(r):
        return None
    h, r = convert_masses_to_positions(h), convert_masses_to_positions(r)
    if len(h) != len(r):
        raise SegmentationMetricError('')
    return window_diff(h, r, window_size=w, boundary_format='position', return_parts=True)


@check('C04', abstract=['mass2pos', 'nltk2mass'])
def wd_nltk_code(h: NLTK, r: NLTK, w: WINDOW):
    if not h or not r or not positions_from_nltk(h) or not positions_from_nltk(r):
        return None
    return window_diff(h, r, window_size=w, boundary_format='nltk', return_parts=True)


def wd_nltk_want(h, r, w):
    if not h or not r or not positions_from_nltk(h) or not positions_from_nltk(r):
        return None
    h, r = positions_from_nltk(h), positions_from_nltk(r)
    if len(h) != len(r):
        raise SegmentationMetricError('')
    return window_diff(h, r, window_size=w, boundary_format='position', return_parts=True)


# -- edit metrics: everything reduces to boundary strings
@check('C04', abstract=['conv', 'bed'])
def stats_mass_code(h: MASSES, r: MASSES, w: WINDOW):
    if not h or not r or not boundary_string_from_masses(h) or not boundary_string_from_masses(r):
        return None
    return boundary_statistics(h, r, n_t=w, boundary_format='mass')


def stats_mass_want(h, r, w):
    if not h or not r or not boundary_string_from_masses(h) or not boundary_string_from_masses(r):
        return None
    h, r = boundary_string_from_masses(h), boundary_string_from_masses(r)
    if len(h) != len(r):
        raise SegmentationMetricError('')
    return boundary_statistics(h, r, n_t=w, boundary_format='sets')


@check('C04', abstract=['conv', 'bed'])
def matrix_mass_code(h: MASSES, r: MASSES, w: WINDOW):
    if not h or not r or not boundary_string_from_masses(h) or not boundary_string_from_masses(r):
        return None
    return boundary_confusion_matrix(h, r, n_t=w, boundary_format='mass')


def matrix_mass_want(h, r, w):
    if not h or not r or not boundary_string_from_masses(h) or not boundary_string_from_masses(r):
        return None
    h, r = boundary_string_from_masses(h), boundary_string_from_masses(r)
    if len(h) != len(r):
        raise SegmentationMetricError('')
    return boundary_confusion_matrix(h, r, n_t=w, boundary_format='sets')


@check('C04', abstract=['conv', 'bed'])
def stats_nltk_code(h: NLTK, r: NLTK, w: WINDOW):
    if not h or not r or not string_from_nltk(h) or not string_from_nltk(r):
        return None
    return boundary_statistics(h, r, n_t=w, boundary_format='nltk')


def stats_nltk_want(h, r, w):
    if not h or not r or not string_from_nltk(h) or not string_from_nltk(r):
        return None
    h, r = string_from_nltk(h), string_from_nltk(r)
    if len(h) != len(r):
        raise SegmentationMetricError('')
    return boundary_statistics(h, r, n_t=w, boundary_format='sets')


@check('C04', abstract=['conv', 'bed'])
def matrix_nltk_code(h: NLTK, r: NLTK, w: WINDOW):
    if not h or not r or not string_from_nltk(h) or not string_from_nltk(r):
        return None
    return boundary_confusion_matrix(h, r, n_t=w, boundary_format='nltk')


def matrix_nltk_want(h, r, w):
    if not h or not r or not string_from_nltk(h) or not string_from_nltk(r):
        return None
    h, r = string_from_nltk(h), string_from_nltk(r)
    if len(h) != len(r):
        raise SegmentationMetricError('')
    return boundary_confusion_matrix(h, r, n_t=w, boundary_format='sets')


@check('C04', abstract=['conv', 'bed'])
def stats_position_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    if not h or not r or not string_from_positions(h) or not string_from_positions(r):
        return None
    return boundary_statistics(h, r, n_t=w, boundary_format='position')


def stats_position_want(h, r, w):
    if not h or not r or not string_from_positions(h) or not string_from_positions(r):
        return None
    h, r = string_from_positions(h), string_from_positions(r)
    if len(h) != len(r):
        raise SegmentationMetricError('')
    return boundary_statistics(h, r, n_t=w, boundary_format='sets')


@check('C04', abstract=['conv', 'bed'])
def matrix_position_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    if not h or not r or not string_from_positions(h) or not string_from_positions(r):
        return None
    return boundary_confusion_matrix(h, r, n_t=w, boundary_format='position')


def matrix_position_want(h, r, w):
    if not h or not r or not string_from_positions(h) or not string_from_positions(r):
        return None
    h, r = string_from_positions(h), string_from_positions(r)
    if len(h) != len(r):
        raise SegmentationMetricError('')
    return boundary_confusion_matrix(h, r, n_t=w, boundary_format='sets')


# -- the scores are functions of those statistics in every encoding
@check('C04', abstract=['conv', 'bed'])
def b_mass_score_code(h: MASSES, r: MASSES, n: WINDOW):
    if not h or not r:
        return None
    return boundary_similarity(h, r, n_t=n, boundary_format='mass', return_parts=True)


def b_mass_score_want(h, r, n):
    if not h or not r:
        return None
    s = boundary_statistics(h, r, n_t=n, boundary_format='mass')
    d = len(s['additions']) + len(s['substitutions']) + len(s['transpositions']) + len(s['matches'])
    return d - s['count_edits'], d, s['additions'], s['substitutions'], s['transpositions']


@check('C04', abstract=['conv', 'bed'])
def s_mass_score_code(h: MASSES, r: MASSES, n: WINDOW):
    if not h or not r:
        return None
    return segmentation_similarity(h, r, n_t=n, boundary_format='mass', return_parts=True)


def s_mass_score_want(h, r, n):
    if not h or not r:
        return None
    s = boundary_statistics(h, r, n_t=n, boundary_format='mass')
    return s['pbs'] - s['count_edits'], s['pbs']


@check('C04', abstract=['conv', 'bed'])
def b_position_score_code(h: POSITIONS, r: POSITIONS, n: WINDOW):
    if not h or not r:
        return None
    return boundary_similarity(h, r, n_t=n, boundary_format='position', return_parts=True)


def b_position_score_want(h, r, n):
    if not h or not r:
        return None
    s = boundary_statistics(h, r, n_t=n, boundary_format='position')
    d = len(s['additions']) + len(s['substitutions']) + len(s['transpositions']) + len(s['matches'])
    return d - s['count_edits'], d, s['additions'], s['substitutions'], s['transpositions']


@check('C04', abstract=['conv', 'bed'])
def s_position_score_code(h: POSITIONS, r: POSITIONS, n: WINDOW):
    if not h or not r:
        return None
    return segmentation_similarity(h, r, n_t=n, boundary_format='position', return_parts=True)


def s_position_score_want(h, r, n):
    if not h or not r:
        return None
    s = boundary_statistics(h, r, n_t=n, boundary_format='position')
    return s['pbs'] - s['count_edits'], s['pbs']


@check('C04', abstract=['conv', 'bed'])
def b_nltk_score_code(h: NLTK, r: NLTK, n: WINDOW):
    if not h or not r:
        return None
    return boundary_similarity(h, r, n_t=n, boundary_format='nltk', return_parts=True)


def b_nltk_score_want(h, r, n):
    if not h or not r:
        return None
    s = boundary_statistics(h, r, n_t=n, boundary_format='nltk')
    d = len(s['additions']) + len(s['substitutions']) + len(s['transpositions']) + len(s['matches'])
    return d - s['count_edits'], d, s['additions'], s['substitutions'], s['transpositions']


@check('C04', abstract=['conv', 'bed'])
def s_nltk_score_code(h: NLTK, r: NLTK, n: WINDOW):
    if not h or not r:
        return None
    return segmentation_similarity(h, r, n_t=n, boundary_format='nltk', return_parts=True)


def s_nltk_score_want(h, r, n):
    if not h or not r:
        return None
    s = boundary_statistics(h, r, n_t=n, boundary_format='nltk')
    return s['pbs'] - s['count_edits'], s['pbs']


# -- unsupported encodings are refused
@check('C04', strict=True)
def pk_badformat_code(h: POSITIONS, r: POSITIONS, f: STR):
    if not h or not r or f == 'position' or f == 'mass' or f == 'nltk':
        return None
    return pk(h, r, boundary_format=f)


def pk_badformat_want(h, r, f):
    if not h or not r or f == 'position' or f == 'mass' or f == 'nltk':
        return None
    raise SegmentationMetricError('')


@check('C04', strict=True)
def wd_badformat_code(h: POSITIONS, r: POSITIONS, f: STR):
    if not h or not r or f == 'position' or f == 'mass' or f == 'nltk':
        return None
    return window_diff(h, r, boundary_format=f)


def wd_badformat_want(h, r, f):
    if not h or not r or f == 'position' or f == 'mass' or f == 'nltk':
        return None
    raise SegmentationMetricError('')


@check('C04', strict=True, abstract=['bed'])
def b_badformat_code(h: STRING, r: STRING, f: STR):
    if not h or not r or f == 'position' or f == 'mass' or f == 'nltk' or f == 'sets':
        return None
    return boundary_similarity(h, r, boundary_format=f)


def b_badformat_want(h, r, f):
    if not h or not r or f == 'position' or f == 'mass' or f == 'nltk' or f == 'sets':
        return None
    raise SegmentationMetricError('')


@check('C04', strict=True, abstract=['bed'])
def s_badformat_code(h: STRING, r: STRING, f: STR):
    if not h or not r or f == 'position' or f == 'mass' or f == 'nltk' or f == 'sets':
        return None
    return segmentation_similarity(h, r, boundary_format=f)


def s_badformat_want(h, r, f):
    if not h or not r or f == 'position' or f == 'mass' or f == 'nltk' or f == 'sets':
        return None
    raise SegmentationMetricError('')


@check('C04', strict=True, abstract=['bed'])
def cm_badformat_code(h: STRING, r: STRING, f: STR):
    if not h or not r or f == 'position' or f == 'mass' or f == 'nltk' or f == 'sets':
        return None
    return boundary_confusion_matrix(h, r, boundary_format=f)


def cm_badformat_want(h, r, f):
    if not h or not r or f == 'position' or f == 'mass' or f == 'nltk' or f == 'sets':
        return None
    raise SegmentationMetricError('')


# -- differing lengths are refused
@check('C05', strict=True)
def pk_length_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    if not h or not r or len(h) == len(r):
        return None
    return pk(h, r, window_size=w, boundary_format='position')


def pk_length_want(h, r, w):
    if not h or not r or len(h) == len(r):
        return None
    raise SegmentationMetricError('')


@check('C05', strict=True)
def wd_length_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    if not h or not r or len(h) == len(r):
        return None
    return window_diff(h, r, window_size=w, boundary_format='position')


def wd_length_want(h, r, w):
    if not h or not r or len(h) == len(r):
        return None
    raise SegmentationMetricError('')


@check('C05', strict=True)
def wd_length_lamprier_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    if not h or not r or len(h) == len(r):
        return None
    return window_diff(h, r, window_size=w, boundary_format='position', lamprier_et_al_2007_fix=True)


def wd_length_lamprier_want(h, r, w):
    if not h or not r or len(h) == len(r):
        return None
    raise SegmentationMetricError('')


@check('C05', strict=True)
def pk_length_mass_code(h: MASSES, r: MASSES, w: WINDOW):
    if not h or not r or sum(h) == sum(r):
        return None
    return pk(h, r, window_size=w)


def pk_length_mass_want(h, r, w):
    if not h or not r or sum(h) == sum(r):
        return None
    raise SegmentationMetricError('')


@check('C05', strict=True)
def wd_length_mass_code(h: MASSES, r: MASSES, w: WINDOW):
    if not h or not r or sum(h) == sum(r):
        return None
    return window_diff(h, r, window_size=w)


def wd_length_mass_want(h, r, w):
    if not h or not r or sum(h) == sum(r):
        return None
    raise SegmentationMetricError('')


@check('C05', strict=True, abstract=['bed'])
def b_length_code(h: STRING, r: STRING, n: WINDOW):
    if not h or not r or len(h) == len(r):
        return None
    return boundary_similarity(h, r, n_t=n, boundary_format='sets')


def b_length_want(h, r, n):
    if not h or not r or len(h) == len(r):
        return None
    raise SegmentationMetricError('')


@check('C05', strict=True, abstract=['bed'])
def s_length_code(h: STRING, r: STRING, n: WINDOW):
    if not h or not r or len(h) == len(r):
        return None
    return segmentation_similarity(h, r, n_t=n, boundary_format='sets')


def s_length_want(h, r, n):
    if not h or not r or len(h) == len(r):
        return None
    raise SegmentationMetricError('')


@check('C05', strict=True, abstract=['bed'])
def cm_length_code(h: STRING, r: STRING, n: WINDOW):
    if not h or not r or len(h) == len(r):
        return None
    return boundary_confusion_matrix(h, r, n_t=n, boundary_format='sets')


def cm_length_want(h, r, n):
    if not h or not r or len(h) == len(r):
        return None
    raise SegmentationMetricError('')


@check('C05', strict=True, abstract=['bed'])
def b_length_mass_code(h: MASSES, r: MASSES, n: WINDOW):
    if not h or not r or sum(h) == sum(r):
        return None
    return boundary_similarity(h, r, n_t=n)


def b_length_mass_want(h, r, n):
    if not h or not r or sum(h) == sum(r):
        return None
    raise SegmentationMetricError('')


@check('C05', strict=True, abstract=['bed'])
def s_length_pos_code(h: POSITIONS, r: POSITIONS, n: WINDOW):
    if not h or not r or len(h) == len(r):
        return None
    return segmentation_similarity(h, r, n_t=n, boundary_format='position')


def s_length_pos_want(h, r, n):
    if not h or not r or len(h) == len(r):
        return None
    raise SegmentationMetricError('')
