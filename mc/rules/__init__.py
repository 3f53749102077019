from . import store, rediscmd, defense, counter, system, queue, registry, safety, redischeck, api, serial, config, reasons, secrets, shared, equal, indep, growth, texts, live
RULES = {'C01': store.c01, 'C02': system.c02, 'C03': store.c03, 'C04': store.c04, 'C05': counter.c05, 'C06': counter.c06, 'C07': defense.c07, 'C08': defense.c08, 'C09': counter.c09,
         'C10': system.c10, 'C11': system.c11, 'C12': queue.c12, 'C13': queue.c13, 'C14': queue.c14, 'C15': queue.c15, 'C16': system.c16, 'C17': safety.c17, 'C18': safety.c18, 'C19': safety.c19, 'C24': safety.c24, 'C25': redischeck.c25, 'C20': registry.c20, 'C21': registry.c21, 'C22': registry.c22, 'C23': registry.c23, 'C26': system.c26, 'C27': api.c27, 'C28': rediscmd.c28, 'C34': serial.c34, 'C35': live.c35, 'C36': config.c36, 'C37': reasons.c37, 'C38': rediscmd.c38, 'C39': shared.c39, 'C40': secrets.c40, 'C41': equal.c41, 'C42': indep.c42, 'C43': growth.c43, 'C44': texts.c44}
# how many rule instances there are at the least (about a fifth of those on the tree the rules were written for)
FLOORS = {'C01': 4, 'C02': 5, 'C03': 5, 'C04': 4, 'C05': 7, 'C06': 8, 'C07': 9, 'C08': 9, 'C09': 2, 'C10': 3, 'C11': 1, 'C12': 9, 'C13': 6, 'C14': 4, 'C15': 3, 'C16': 3, 'C17': 3,
          'C18': 15, 'C19': 23, 'C20': 9, 'C21': 5, 'C22': 4, 'C23': 4, 'C24': 23, 'C25': 9, 'C26': 4, 'C27': 34, 'C28': 20, 'C34': 89, 'C36': 26, 'C37': 12, 'C38': 2, 'C39': 5, 'C40': 31,
          'C41': 3, 'C42': 94, 'C43': 18, 'C44': 40, 'C35': 60}
