"""Properties and how each is decided."""
ASSUMPTIONS = [
    'real arithmetic: floating-point rounding is not modelled except explicit narrowing to single precision',
    'library calls (Eigen, OpenCV, PCL, the standard library) behave as documented',
    'integer computations do not overflow; unsigned wrap-around of subtraction is modelled',
]
VG = ('Gated value-graph dataflow over the type-checked AST: every driver entry point is evaluated to a canonical value graph '
      '(joins at merges, loops summarised as closed forms) and compared with the value graph of an independent reference definition.')
PROPS = {}


def prop(pid, drivers, rule=VG, **kw):
    PROPS[pid] = dict(drivers=drivers, rule=rule, **kw)


prop('C13', ['match_filters.cpp'])
prop('C05', ['stereo_equations.cpp'])
prop('C11', ['stereo_costs.cpp'])
prop('C01', ['frames.cpp'])
prop('C02', ['transforms.cpp'])
prop('C03', ['covariance.cpp'])
prop('C04', ['matrix_helpers.cpp'])
prop('C06', ['icp_models.cpp'])
prop('C10', ['point_types.cpp'])
prop('C14', ['config_names.cpp'])
prop('C09', ['cloud_transform.cpp'])
STUBS = {'flags': ['-I' + __import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/drivers/stubs']}
prop('C08', ['correspondences.cpp'], opts=STUBS)
prop('C07', ['registration_covariance.cpp'], opts=STUBS)
prop('C12', ['matcher.cpp'])
ROS = {'flags': ['-I' + __import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/drivers/stubs_ros']}
prop('C15', ['ros_messages.cpp'], opts=ROS)
prop('C16', ['motion.cpp'], opts=ROS)
prop('C17', ['cloud_utilities.cpp'])
prop('C18', ['camera_operations.cpp'], opts=ROS)
prop('C19', ['tracker.cpp'], opts=dict(ROS, flags=ROS['flags'] + ['-fno-access-control']))
DRV = __import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/drivers/'
prop('C20', ['graph_manager.cpp'], opts={'flags': ['-DVERIF_BOOST_POINTERS', '-I' + DRV + 'stubs_gtsam', '-fno-access-control']})
prop('C21', ['body_frames.cpp', 'body_frames_tf.cpp'], opts={'flags': ['-I' + DRV + 'stubs_frames', '-I' + DRV + 'stubs_ros', '-fno-access-control']})
