from . import props_eq  # noqa
from . import props_exp  # noqa
from . import props_run  # noqa
from . import props_step, props_cfg  # noqa
from . import props_out, props_mat, props_ini, props_typ, props_files, props_two
from . import props_obj  # noqa
from . import props_set  # noqa
from . import props_frame  # noqa
