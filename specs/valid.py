"""Valid segmentations are always given a score: nothing that is valid is refused or fails."""
from segeval.window.pk import pk
from segeval.window.windowdiff import window_diff
from segeval.similarity.boundary import boundary_similarity
from segeval.similarity.segmentation import segmentation_similarity
from segeval.similarity import boundary_confusion_matrix, boundary_statistics
from segeval.format import convert_nltk_to_masses


def same(h, r):
    return len(h) > 0 and len(r) > 0 and sum(h) == sum(r)


@check('C11')
def pk_mass_answers_code(h: MASSES, r: MASSES, w: WINDOW):
    if not same(h, r):
        return True
    pk(h, r, window_size=w)
    return True


def pk_mass_answers_want(h, r, w):
    return True


@check('C11')
def wd_mass_answers_code(h: MASSES, r: MASSES, w: WINDOW):
    if not same(h, r):
        return True
    window_diff(h, r, window_size=w)
    return True


def wd_mass_answers_want(h, r, w):
    return True


@check('C11', abstract=['bed'])
def b_mass_answers_code(h: MASSES, r: MASSES, w: WINDOW):
    if not same(h, r):
        return True
    boundary_similarity(h, r, n_t=w)
    return True


def b_mass_answers_want(h, r, w):
    return True


@check('C11', abstract=['bed'])
def s_mass_answers_code(h: MASSES, r: MASSES, w: WINDOW):
    if not same(h, r):
        return True
    segmentation_similarity(h, r, n_t=w)
    return True


def s_mass_answers_want(h, r, w):
    return True


@check('C11', abstract=['bed'])
def cm_mass_answers_code(h: MASSES, r: MASSES, w: WINDOW):
    if not same(h, r):
        return True
    boundary_confusion_matrix(h, r, n_t=w)
    return True


def cm_mass_answers_want(h, r, w):
    return True


@check('C11', abstract=['bed'])
def st_mass_answers_code(h: MASSES, r: MASSES, w: WINDOW):
    if not same(h, r):
        return True
    boundary_statistics(h, r, n_t=w)
    return True


def st_mass_answers_want(h, r, w):
    return True


# -- the other encodings, and options left to their defaults
@check('C11')
def pk_position_answers_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    if len(h) == 0 or len(h) != len(r):
        return True
    pk(h, r, window_size=w, boundary_format='position', one_minus=True)
    return True


def pk_position_answers_want(h, r, w):
    return True


@check('C11')
def wd_position_answers_code(h: POSITIONS, r: POSITIONS, w: WINDOW, lamprier: BOOL):
    if len(h) == 0 or len(h) != len(r):
        return True
    window_diff(h, r, window_size=w, boundary_format='position', one_minus=True, lamprier_et_al_2007_fix=lamprier)
    return True


def wd_position_answers_want(h, r, w, lamprier):
    return True


@check('C11')
def pk_nltk_answers_code(h: NLTK, r: NLTK):
    if len(h) == 0 or len(h) != len(r):
        return True
    pk(h, r, boundary_format='nltk')
    return True


def pk_nltk_answers_want(h, r):
    return True


@check('C11')
def wd_nltk_answers_code(h: NLTK, r: NLTK):
    if len(h) == 0 or len(h) != len(r):
        return True
    window_diff(h, r, boundary_format='nltk')
    return True


def wd_nltk_answers_want(h, r):
    return True


@check('C11', abstract=['bed'])
def b_position_answers_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    if len(h) == 0 or len(h) != len(r):
        return True
    boundary_similarity(h, r, n_t=w, boundary_format='position', one_minus=True)
    return True


def b_position_answers_want(h, r, w):
    return True


@check('C11', abstract=['bed'])
def b_nltk_answers_code(h: NLTK, r: NLTK, w: WINDOW):
    if len(h) == 0 or len(h) != len(r):
        return True
    boundary_similarity(h, r, n_t=w, boundary_format='nltk')
    return True


def b_nltk_answers_want(h, r, w):
    return True


@check('C11', abstract=['bed'])
def b_sets_answers_code(h: STRING, r: STRING, w: WINDOW):
    if len(h) == 0 or len(h) != len(r):
        return True
    boundary_similarity(h, r, n_t=w, boundary_format='sets')
    return True


def b_sets_answers_want(h, r, w):
    return True


@check('C11', abstract=['bed'])
def s_position_answers_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    if len(h) == 0 or len(h) != len(r):
        return True
    segmentation_similarity(h, r, n_t=w, boundary_format='position', one_minus=True)
    return True


def s_position_answers_want(h, r, w):
    return True


@check('C11', abstract=['bed'])
def s_nltk_answers_code(h: NLTK, r: NLTK, w: WINDOW):
    if len(h) == 0 or len(h) != len(r):
        return True
    segmentation_similarity(h, r, n_t=w, boundary_format='nltk')
    return True


def s_nltk_answers_want(h, r, w):
    return True


@check('C11', abstract=['bed'])
def s_sets_answers_code(h: STRING, r: STRING, w: WINDOW):
    if len(h) == 0 or len(h) != len(r):
        return True
    segmentation_similarity(h, r, n_t=w, boundary_format='sets')
    return True


def s_sets_answers_want(h, r, w):
    return True


@check('C11', abstract=['bed'])
def cm_sets_answers_code(h: STRING, r: STRING, w: WINDOW):
    if len(h) == 0 or len(h) != len(r):
        return True
    boundary_confusion_matrix(h, r, n_t=w, boundary_format='sets')
    return True


def cm_sets_answers_want(h, r, w):
    return True


@check('C11', abstract=['window'])
def pk_window_answers_code(h: MASSES, r: MASSES):
    if not same(h, r):
        return True
    pk(h, r)
    return True


def pk_window_answers_want(h, r):
    return True


@check('C11', abstract=['window'])
def wd_window_answers_code(h: MASSES, r: MASSES):
    if not same(h, r):
        return True
    window_diff(h, r)
    return True


def wd_window_answers_want(h, r):
    return True
