"""which parts decide which property"""
CORE = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C16', 'C17']
PARTS = {p: ('model_checking', [('core', 'run')]) for p in CORE}
PARTS['C12'] = ('model_checking', [('core', 'run'), ('apps', 'real'), ('apps', 'run')])
PARTS['C13'] = ('model_checking', [('update', 'run'), ('core', 'run')])
PARTS['C32'] = ('model_checking', [('update', 'run')])
for _p in ('C06', 'C08', 'C10', 'C17'):
    PARTS[_p] = ('model_checking', [('core', 'run'), ('motion', 'run')])
PARTS['C31'] = ('model_checking', [('models', 'run')])
PARTS['C29'] = ('model_checking', [('frames', 'run')])
PARTS['C33'] = ('model_checking', [('distort', 'run')])
PARTS['C28'] = ('model_checking', [('update', 'noise')])
PARTS['C15'] = ('model_checking', [('sortedbuf', 'run')])
PARTS['C27'] = ('model_checking', [('timing', 'run')])
APPS = ['C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C26', 'C30']
PARTS.update({p: ('model_checking', [('apps', 'run')]) for p in APPS})
CORE_NOTE = 'generated call sequences run on the real filter core; TLC checks every recorded call against MsfCore.tla'
NOTES = {p: CORE_NOTE for p in CORE}
NOTES.update({p: 'the real applications (managers, handlers, ROS layer over stub ROS headers) are driven with generated messages, requests and configurations; TLC checks every recorded call against Managers/Handlers/Outputs.tla' for p in APPS})
PARTS['C23'] = ('model_checking', [('apps', 'run'), ('apps', 'real')])
NOTES['C12'] = CORE_NOTE + '; the applications are run with their real filter core and TLC checks every update against AppReal.tla'
NOTES['C13'] = CORE_NOTE + '; the gate on full-size updates is checked against Update.tla'
for _p in ('C06', 'C08', 'C10', 'C17'):
    NOTES[_p] = CORE_NOTE + '; three-dimensional motion with any attitude and turning rate is checked against Motion.tla'
NOTES['C32'] = 'generated integer-valued updates run through the real measurement base class inside a running filter; TLC checks correction, covariance and gate exactly against Update.tla, which is itself model checked'
NOTES['C31'] = 'every measurement type of the five applications is applied to generated exact states; TLC checks Jacobian, residual and noise handed to the Kalman update block by block against MeasModels.tla'
NOTES['C28'] = 'generated exact readings, attitudes, covariances and noises run through the real covariance prediction; TLC checks transition, noise and covariance exactly (modulo a prime) against Update.tla'
NOTES['C29'] = 'generated fixes, references, pose pairs, covariance blocks and quaternions run through the real conversion code; TLC checks every result against the integer specification Frames.tla'
NOTES['C33'] = 'generated readings, rates, configurations and messages run through the real distorter, a pose handler that distorts, and the distortion node; TLC checks every result against Distort.tla'
NOTES['C15'] = 'generated operation sequences on the real container, every answer checked by TLC against SortedBuffer.tla; the specification itself is model checked'
NOTES['C27'] = 'generated timer operation sequences on the real timing library with a scripted clock, every answer checked by TLC against Timing.tla'
NOT_APPLICABLE = {}
