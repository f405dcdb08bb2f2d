"""Property id -> world."""
import importlib

WORLDS = {
    'C01': ('sweep', 'SweepGridWorld'),
    'C02': ('sweep', 'SweepCrashWorld'),
    'C03': ('sweep', 'SweepConcurrentWorld'),
    'C04': ('sweep', 'SweepCommandWorld'),
    'C05': ('lookup', 'LookupWorld'),
    'C06': ('integrate', 'CheckpointedIntegrationWorld'),
    'C07': ('equations', 'EquationsWorld'),
    'C08': ('block', 'InterleavedBackwardWorld'),
    'C09': ('block', 'HistoryWorld'),
    'C10': ('block', 'AbortWorld'),
    'C11': ('chain', 'ResumeWorld'),
    'C12': ('registryw', 'ParameterRegistryWorld'),
    'C13': ('block', 'PenaltyWorld'),
    'C14': ('hooksw', 'HooksWorld'),
    'C15': ('training', 'TrainingCrashWorld'),
    'C16': ('scheduler', 'SchedulerWorld'),
    'C17': ('training', 'RepeatabilityWorld'),
    'C18': ('threads', 'IndependenceWorld'),
    'C19': ('block', 'BatchWorld'),
    'C23': ('loaders', 'LoaderWorld'),
    'C26': ('resnet', 'ResNetWorld'),
}


def get(pid):
    mod, cls = WORLDS[pid]
    return getattr(importlib.import_module('sim.worlds.' + mod), cls)()
