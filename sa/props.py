"""property id -> rules that decide it"""
import catalog
import rules_algo as alg
import rules_capi as cap
import rules_config as cfg
import rules_config_io as cio
import rules_exc as exc
import rules_conc as con
import rules_geom as geo
import rules_image as img
import rules_init as ini
import rules_io as rio
import rules_log as log
import rules_util as util
import rules_macro as mac
import rules_parser as parser
import rules_track as trk
import rules_value as val

V = ('vital',)
PROPS = {
    'C01': dict(groups=V, rules=[cfg.check_readonly]),
    'C02': dict(groups=V, rules=[cfg.check_views]),
    'C03': dict(groups=V, rules=[cfg.check_typed]),
    'C04': dict(groups=V, rules=[cfg.check_stores]),
    'C05': dict(groups=V, rules=[parser.check_parse_errors]),
    'C06': dict(groups=V, rules=[parser.check_directives]),
    'C07': dict(groups=V, rules=[cio.check_search]),
    'C08': dict(groups=V, rules=[cio.check_write]),
    'C09': dict(groups=V, rules=[mac.check_macros]),
    'C10': dict(groups=V, rules=[parser.check_lexer]),
    'I01': dict(groups=V, rules=[rio.check_writers]),
    'I02': dict(groups=V, rules=[rio.check_readers, rio.check_camera_maps]),
    'I03': dict(groups=V, rules=[rio.check_streams]),
    'T01': dict(groups=V, rules=[trk.check_timestamps]),
    'T02': dict(groups=V, rules=[img.check_pixels]),
    'T03': dict(groups=V, rules=[img.check_copies]),
    'T04': dict(groups=V, rules=[trk.check_track, trk.check_track_set]),
    'T05': dict(groups=V, rules=[val.check_state]),
    'T06': dict(groups=V, rules=[ini.check_init]),
    'G01': dict(groups=V, rules=[geo.check_camera]),
    'G02': dict(groups=V, rules=[geo.check_homography]),
    'G03': dict(groups=V, rules=[geo.check_covariance]),
    'G04': dict(groups=V, rules=[geo.check_rotation]),
    'A01': dict(groups=V, rules=[alg.check_registry]),
    'A02': dict(groups=V, rules=[alg.check_nested]),
    'A03': dict(groups=V, rules=[alg.check_plugins]),
    'A04': dict(groups=V, rules=[alg.check_frontends]),
    'B01': dict(groups=V, rules=[cap.check_errors]),
    'B02': dict(groups=V, rules=[cap.check_texts]),
    'B03': dict(groups=V, rules=[cap.check_handles]),
    'B04': dict(groups=V, rules=[cap.check_calls]),
    'S01': dict(groups=V, rules=[con.check_shared, con.check_once]),
    'U01': dict(groups=V, rules=[util.check_tokenize, util.check_enumerate, util.check_timers]),
    'L01': dict(groups=V, rules=[log.check_levels, log.check_location, log.check_factories, log.check_log_macros]),
    'E01': dict(groups=V, rules=[exc.check_messages]),
    'E02': dict(groups=V, rules=[exc.check_throws]),
}
for _i, _t in catalog.titles().items():
    if _i in PROPS:
        PROPS[_i]['title'] = _t
